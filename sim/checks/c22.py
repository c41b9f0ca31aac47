"""C22: a configuration says what is built: the same classes, registrations and settings give
the same defaults and the same objects, in whatever order, in how many threads and after
whatever failures the classes have been expanded."""

import dataclasses
import os
import sys
import types
import warnings
from typing import Dict, List, Optional, Tuple

import torch
from omegaconf import OmegaConf

from .. import threads as th
from ..core import Scenario, Violation

th.install()

from pytorch3d.implicitron.tools import config as conf  # noqa: E402

PROPERTY = "C22"
FILES = [os.path.join(th.REPO, "pytorch3d", "implicitron", "tools", "config.py")]
MODULE = types.ModuleType("simulated_classes")
OTHER = types.ModuleType("more_simulated_classes")
sys.modules[MODULE.__name__], sys.modules[OTHER.__name__] = MODULE, OTHER
MEMBER_NAMES = ["part", "part_b", "part_b_c", "part_net", "tool", "tool_a"]
OWN_NAMES = ["hook", "lamp", "wheel"]


class HookFailed(Exception):
    pass


# ---------------------------------------------------------------- classes and what they should be
class Cls:
    """a class and its description"""

    def __init__(self, name, bases, replaceable=False):
        self.name, self.bases, self.replaceable = name, bases, replaceable
        self.fields = {}  # name -> value
        self.members = {}  # name -> Member
        self.impls = {}  # of a base class: name -> Cls, as registered
        self.known = None  # once expanded: member -> names of implementations
        self.broken = False
        self.real = None

    def line(self):
        """the class and those it inherits, the most general one first"""
        out = []
        for b in self.bases:
            out += [c for c in b.line() if c not in out]
        return out + [self]

    def all_fields(self):
        out = {}
        for c in self.line():
            out.update(c.fields)
        return out

    def all_members(self):
        out = {}
        for c in self.line():
            out.update(c.members)
        return out

    def is_broken(self):
        return any(c.broken for c in self.line())

    def derives(self, other):
        return other in self.line()

    # the reference
    def expand(self):
        for c in self.line():
            if c.known is None:
                if c.broken:
                    raise ValueError
                c.known = {m.name: sorted(m.target.impls) for m in c.members.values() if m.replaceable}

    def default(self):
        self.expand()
        out = dict(self.all_fields())
        for c in self.line():
            for m in c.members.values():
                if m.replaceable:
                    out.setdefault(m.name + "_class_type", "UNDEFAULTED")
                    for n in c.known[m.name]:
                        out[f"{m.name}_{n}_args"] = m.tweaked(m.target.impls[n].default(), n)
                else:
                    out[m.name + "_args"] = m.tweaked(m.target.default(), m.target.name)
        return out

    def built(self, cfg):
        """-> what building from cfg gives"""
        cfg = {**self.default(), **cfg}
        out = {"class": self.name, **cfg}
        for m in self.all_members().values():
            if m.replaceable:
                t = cfg[m.name + "_class_type"]
                out[m.name] = None if t is None else m.target.impls[t].built(cfg[f"{m.name}_{t}_args"])
            elif m.optional and not cfg[m.name + "_enabled"]:
                out[m.name] = None
            else:
                out[m.name] = m.target.built(cfg[m.name + "_args"])
        return out

    def pruned(self, cfg):
        out = dict(cfg)
        for m in self.all_members().values():
            if m.replaceable:
                t = cfg[m.name + "_class_type"]
                for n in {n for c in self.line() for n in c.known.get(m.name, ())}:
                    k = f"{m.name}_{n}_args"
                    if k in out:
                        if n == t:
                            out[k] = m.target.impls[n].pruned(out[k])
                        else:
                            del out[k]
            elif m.optional and not cfg[m.name + "_enabled"]:
                out.pop(m.name + "_args", None)
            elif m.name + "_args" in out:
                out[m.name + "_args"] = m.target.pruned(out[m.name + "_args"])
        return out


class Member:
    def __init__(self, name, target, replaceable, optional):
        self.name, self.target, self.replaceable, self.optional = name, target, replaceable, optional
        self.tweak = None

    def tweaked(self, args, name):
        if self.tweak is not None:
            k, v = self.tweak
            if k in args and type(args[k]) is int:
                args = {**args, k: v + number(name)}
        return args


def number(name):
    return 100 * int("".join(x for x in name if x.isdigit()))


class World:
    def __init__(self, d, tag):
        self.d = d
        self.tag = tag
        self.n = 0
        self.built = 0  # objects
        self.classes = []  # those that can be asked for, by layer
        self.bases = []  # replaceable base classes
        self.fail = [0]  # calls of hooks until one fails
        for layer in range(1 + d.choice(3)):
            lower = list(self.classes)
            lower_bases = list(self.bases)
            for _ in range(1 + d.choice(2)):
                b = self.make(lower, lower_bases, None, base=True)
                self.bases.append(b)
                impls = [b]
                for _ in range(1 + d.choice(3)):
                    # maybe called as one of another base class is
                    names = sorted({n for x in self.bases for n in x.impls} - set(b.impls))
                    c = self.make(lower, lower_bases, d.pick(impls), name=d.pick(names) if names and d.chance(1, 5) else None)
                    impls.append(c)
                    self.classes.append(c)
                    b.impls[c.name] = c
                    conf.registry.register(c.real)
            parent = None
            for _ in range(1 + d.choice(2)):
                c = self.make(lower, lower_bases + ([b] if d.chance(1, 2) else []), parent, own=True)
                parent = c if d.chance(1, 2) and not c.broken else None
                self.classes.append(c)

    def value(self):
        d = self.d
        k = d.choice(9)
        v = d.choice(100)
        if k <= 1:
            return int, v, v
        if k == 2:
            return float, v / 8, v / 8
        if k == 3:
            return str, f"s{v}", f"s{v}"
        if k == 4:
            return bool, v % 2 == 0, v % 2 == 0
        if k == 5:
            return Optional[int], None, None
        if k == 6:
            return Tuple[int, ...], (v, 1), [v, 1]
        if k == 7:
            return List[int], dataclasses.field(default_factory=lambda: [v, 2]), [v, 2]
        return Dict[str, int], dataclasses.field(default_factory=lambda: {"k": v}), {"k": v}

    def make(self, lower, lower_bases, parent, base=False, own=False, name=None):
        d = self.d
        self.n += 1
        replaceable = base or (parent is not None and parent.replaceable)
        c = Cls(name or f"{'Base' if base else 'Made'}{self.n}", [parent] if parent is not None else [], replaceable)
        if own and parent is not None and d.chance(1, 2):
            # two bases which have nothing in common
            names = {*parent.all_fields(), *parent.all_members()}
            other = [x for x in self.classes if not x.replaceable and not x.is_broken() and x not in c.line() and not x.derives(parent)
                     and not set(x.line()) & set(parent.line()) and not names & {*x.all_fields(), *x.all_members()}]
            if other:
                c.bases.append(d.pick(other))
        module = d.chance(1, 4)
        bases = (parent.real,) if parent is not None else ((conf.ReplaceableBase if replaceable else conf.Configurable),)
        bases += tuple(x.real for x in c.bases[1:])
        if module and not any(issubclass(x, torch.nn.Module) for x in bases):
            bases += (torch.nn.Module,)
        ns = {"__annotations__": {}, "__module__": d.pick([MODULE, OTHER]).__name__, "__qualname__": c.name}
        ann = ns["__annotations__"]
        taken = {n: t for x in c.bases for n, t in x.real_types.items()}
        for _ in range(d.choice(4)):
            n = f"f{d.choice(6)}"
            if n in ann:
                continue
            if n in taken:
                # another default for what was declared before
                if taken[n] is not int:
                    continue
                v = d.choice(100)
                ann[n], ns[n], c.fields[n] = int, v, v
            else:
                ann[n], ns[n], c.fields[n] = self.value()
        used = {n for x in c.bases for n in x.all_members()}
        if not base:
            for _ in range(d.choice(4)):
                repl = bool(lower_bases) and d.chance(2, 3)
                targets = lower_bases if repl else [x for x in lower if not x.replaceable and not x.is_broken()]
                names = [n for n in (MEMBER_NAMES if repl else OWN_NAMES) if n not in used]
                if not targets or not names:
                    continue
                m = Member(d.pick(names), d.pick(targets), repl, d.chance(1, 2))
                used.add(m.name)
                c.members[m.name] = m
                t = m.target.real
                ann[m.name] = Optional[t] if m.optional else t
                if repl:
                    if d.chance(3, 4):
                        k = m.name + "_class_type"
                        v = d.pick(sorted(m.target.impls))
                        if m.optional and d.chance(1, 3):
                            v = None
                        ann[k], ns[k], c.fields[k] = (Optional[str] if m.optional else str), v, v
                elif m.optional:
                    if d.chance(1, 12) and own:
                        c.broken = True  # lacks what says whether there is one
                    else:
                        k = m.name + "_enabled"
                        v = d.chance(1, 2)
                        ann[k], ns[k], c.fields[k] = bool, v, v
                if d.chance(1, 3):
                    m.tweak = (f"f{d.choice(6)}", d.choice(100))
                    ns[m.name + "_tweak_args"] = classmethod(self.hook(m.tweak))
            if parent is not None and not c.broken and d.chance(1, 3):
                # another choice for what was declared before
                for x in c.bases:
                    for m in x.all_members().values():
                        k = m.name + "_class_type"
                        if m.replaceable and k in x.all_fields():
                            v = d.pick(sorted(m.target.impls))
                            ann[k], ns[k], c.fields[k] = taken[k], v, v
        c.real_types = {**taken, **{k: ann[k] for k in c.fields}}

        def post_init(obj):
            self.built += 1
            conf.run_auto_creation(obj)

        ns["__post_init__"] = post_init
        if d.chance(1, 4):
            ns["pre_expand"] = classmethod(lambda cls: self.called())
        c.real = type(bases[0])(c.name, bases, ns)
        return c

    def hook(self, tweak):
        def f(cls, member_type, args):
            self.called()
            k, v = tweak
            if k in args and type(args[k]) is int:
                args[k] = v + number(member_type.__name__)

        return f

    def called(self):
        if self.fail[0] > 0:
            self.fail[0] -= 1
            if self.fail[0] == 0:
                raise HookFailed


def plain(x):
    return OmegaConf.to_container(x) if OmegaConf.is_config(x) else x


def listed(x):
    """plain data: tuples as lists"""
    x = plain(x)
    if isinstance(x, (list, tuple)):
        return [listed(y) for y in x]
    if isinstance(x, dict):
        return {k: listed(v) for k, v in x.items()}
    return x


def described(o, c):
    """what an object of class c is made of"""
    out = {"class": type(o).__name__}
    members = c.all_members()
    for k in c.default():
        out[k] = listed(getattr(o, k))
    for m in members.values():
        x = getattr(o, m.name)
        if x is None:
            out[m.name] = None
        elif m.replaceable:
            i = m.target.impls.get(type(x).__name__)
            out[m.name] = type(x).__name__ if i is None or type(x) is not i.real else described(x, i)
        else:
            out[m.name] = described(x, m.target) if type(x) is m.target.real else type(x).__name__
    return out


def made(x):
    """a description without the settings which parts have been made from"""
    return {k: made(v) if isinstance(v, dict) else v for k, v in x.items() if not k.endswith("_args")}


def size(x):
    return sum(size(v) for v in made(x).values() if isinstance(v, dict)) + ("class" in x)


def choose(d, c, cfg, depth=0):
    """settings, some of them changed"""
    out = dict(cfg)
    for k, v in c.all_fields().items():
        if isinstance(v, int) and not isinstance(v, bool) and d.chance(1, 4):
            out[k] = d.choice(100)
    for m in c.all_members().values():
        if m.replaceable:
            known = sorted({n for x in c.line() for n in x.known.get(m.name, ())})
            k = m.name + "_class_type"
            if out[k] == "UNDEFAULTED" or d.chance(1, 3):
                out[k] = None if m.optional and d.chance(1, 4) else d.pick(known)
            for n in known:
                a = f"{m.name}_{n}_args"
                out[a] = choose(d, m.target.impls[n], out[a], depth + 1)
        else:
            if m.optional and d.chance(1, 3):
                out[m.name + "_enabled"] = d.chance(1, 2)
            out[m.name + "_args"] = choose(d, m.target, out[m.name + "_args"], depth + 1)
    return out


def trimmed(d, c, cfg):
    """settings, some of them left out where they have not been changed"""
    base = c.default()
    return {k: v for k, v in cfg.items() if v != base.get(k) or d.chance(1, 2)}


# ---------------------------------------------------------------- a history
def attempt(d, ctx, w, fn):
    """fn(), maybe failing in a hook or interrupted -> (completed, value)"""
    how = d.weighted([4, 3, 4])
    if how == 0:
        return True, fn()
    if how == 1:
        w.fail[0] = 1 + d.choice(6)
        ctx.arm("hook_failure")
        try:
            r = fn()
        except HookFailed:
            ctx.fault("hook_failure")
            return False, None
        finally:
            w.fail[0] = 0
        return True, r
    ctx.arm("interrupt")
    (ok, r), fired = th.interrupted(fn, FILES, d.gap(9), d.pick([KeyboardInterrupt, MemoryError]))
    if fired:
        ctx.fault("interrupt")
        return False, None
    if ok != "ok":
        raise r
    return True, r


def defaults(ctx, c):
    got = listed(conf.get_default_args(c.real))
    want = c.default()
    ctx.check(got == want, "wrong-defaults", c.name, diff(got, want))
    return got


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: diff(a.get(k, "missing"), b.get(k, "missing")) for k in {**a, **b} if k not in a or k not in b or a[k] != b[k]}
    return (a, b)


def judge_built(ctx, c, o, cfg, what):
    want = c.built(cfg)
    got = described(o, c) if type(o) is c.real else type(o)
    ctx.check(got == want, what, c.name, diff(got, want))


def history(d, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = World(d, 0)
        for _ in range(2 + d.choice(7)):
            step(d, ctx, w)
    ctx.nontrivial = True


def step(d, ctx, w):
    op = d.weighted([5, 5, 3, 2, 2, 3])
    c = d.pick(w.classes)
    ctx.state(op, len(c.all_members()), c.known is None, len(c.line()))
    if c.is_broken():
        # whatever is tried, and however often
        for x in c.line():
            if not x.broken:
                conf.expand_args_fields(x.real)
                x.expand()
            else:
                break
        for _ in range(1 + d.choice(2)):
            ok, r = True, None
            try:
                ok, r = attempt(d, ctx, w, lambda: d.pick([conf.get_default_args, conf.expand_args_fields])(c.real))
            except ValueError:
                ok = False
            ctx.check(not ok, "malformed-class-accepted", c.name, listed(r) if OmegaConf.is_config(r) else r)
        ctx.count("malformed")
        return
    if op == 0:  # its defaults
        ok, r = attempt(d, ctx, w, lambda: conf.get_default_args(c.real))
        if ok:
            want = c.default()
            ctx.check(listed(r) == want, "wrong-defaults", c.name, diff(listed(r), want))
            # they are the caller's
            with conf.open_dict(r):
                scribble(r)
        defaults(ctx, c)
        ctx.count("defaults")
    elif op == 1:  # an object
        if d.chance(1, 2):
            conf.expand_args_fields(c.real)
        direct = c.known is None and not c.all_members() and d.chance(1, 2)
        if direct:  # without asking for anything before
            ok, o = attempt(d, ctx, w, lambda: c.real())
            if not ok:
                o = c.real()
            judge_built(ctx, c, o, {}, "wrong-object")
            return
        cfg = choose(d, c, c.default())
        if d.chance(1, 3):
            cfg = trimmed(d, c, cfg)
        how = d.choice(3)
        if how == 0:
            args = dict(cfg)
        elif how == 1:
            args = OmegaConf.merge(conf.get_default_args(c.real), cfg)
            cfg = {**c.default(), **listed(args)}
        else:
            args = OmegaConf.create(OmegaConf.to_yaml(OmegaConf.create(cfg)))
        before = listed(args)
        ok, o = attempt(d, ctx, w, lambda: c.real(**args))
        ctx.check(listed(args) == before, "building-changed-the-configuration", c.name)
        if not ok:
            o = c.real(**args)
        judge_built(ctx, c, o, cfg, "wrong-object")
        if d.chance(1, 3):
            w.built = 0
            o = c.real(**args)
            ctx.check(w.built == size(c.built(cfg)), "parts-made-too-often", c.name, w.built, size(c.built(cfg)))
            judge_built(ctx, c, o, cfg, "wrong-second-object")
        ctx.count("objects")
    elif op == 2:  # without what is not used
        full = choose(d, c, c.default())
        x = OmegaConf.create(full) if d.chance(1, 2) else OmegaConf.merge(conf.get_default_args(c.real), full)
        conf.remove_unused_components(x)
        want = c.pruned(full)
        ctx.check(listed(x) == want, "wrong-components-removed", c.name, diff(listed(x), want))
        judge_built(ctx, c, c.real(**x), listed(x), "wrong-object-without-unused-components")
        got, want = made(described(c.real(**x), c)), made(c.built(full))
        ctx.check(got == want, "other-object-without-unused-components", c.name, diff(got, want))
        ctx.count("pruned")
    elif op == 3:  # another implementation, or another one of the same name
        b = d.pick(w.bases)
        old = d.pick(sorted(b.impls)) if d.chance(1, 2) else None
        n = w.make([], [], b, name=old)
        conf.registry.register(n.real)
        if old is not None:
            w.classes = [x for x in w.classes if x is not b.impls[old]]
        b.impls[n.name] = n
        w.classes.append(n)
        ctx.check(conf.registry.get(b.real, n.name) is n.real, "registry-has-another", n.name)
        ctx.count("registered")
    elif op == 4:  # the registry
        b = d.pick(w.bases)
        ctx.check(conf.registry.get_all(b.real) == [b.impls[k].real for k in sorted(b.impls)], "registry-lists-others", b.name)
        x = d.pick([i for i in b.impls.values()])
        ctx.check(conf.registry.get(b.real, x.name) is x.real, "registry-has-another", x.name)
        ctx.check(conf.registry.get_all(x.real) == [b.impls[k].real for k in sorted(b.impls) if b.impls[k].derives(x) and b.impls[k] is not x], "registry-lists-others", x.name)
        for bad in ("Nothing", 3):
            try:
                conf.registry.get(b.real, bad)
            except ValueError:
                continue
            ctx.check(False, "registry-has-what-was-not-registered", bad)
    else:  # several at once
        cs = [x for x in [c] + [d.pick(w.classes) for _ in range(1 + d.choice(2))] if not x.is_broken()]
        if d.chance(1, 2):
            cs = [c] * len(cs)
        jobs = []
        for x in cs:
            if d.chance(1, 2) and not x.all_members():
                jobs.append((x, True, x.real))
            else:
                jobs.append((x, False, lambda x=x: conf.get_default_args(x.real)))
        sch = th.Sched(FILES, th.draw_preemptions(d, len(jobs), 0, 24, 9))
        res = sch.run([j[2] for j in jobs])
        ctx.event("threads", sch.trail, [(k, type(r).__name__) for k, r in res])
        ctx.fault("preemption", sch.di)
        ctx.state("schedule", str(sch.trail))
        for (x, obj, _), (k, r) in zip(jobs, res):
            if k != "ok":
                raise Violation("call-at-once-failed", f"{x.name} {type(r).__name__} {r}")
            if obj:
                judge_built(ctx, x, r, {}, "wrong-object-of-threads")
            else:
                ctx.check(listed(r) == x.default(), "wrong-defaults-of-threads", x.name, diff(listed(r), x.default()))
        ctx.count("at_once")
    if op in (1, 2):
        defaults(ctx, c)  # now all it contains has been expanded, as in the reference
    if d.chance(1, 3):  # nobody else's defaults have changed
        x = d.pick(w.classes)
        if not x.is_broken():
            defaults(ctx, x)


def scribble(x):
    for k in list(x):
        if OmegaConf.is_dict(x[k]):
            scribble(x[k])
        elif OmegaConf.is_list(x[k]):
            x[k].append(7)
        elif isinstance(x[k], int) and not isinstance(x[k], bool):
            x[k] = -5


# ---------------------------------------------------------------- functions
def functions(d, ctx):
    n = 1 + d.choice(4)
    ns, want, sig = {"Optional": Optional, "List": List, "Dict": Dict, "Tuple": Tuple}, {}, []
    for i in range(n):
        k = d.choice(7)
        v = d.choice(100)
        if k == 0:
            sig.append(f"a{i}: int = {v}")
            want[f"a{i}"] = v
        elif k == 1:
            sig.append(f"a{i}: List[int] = [{v}, 2]")
            want[f"a{i}"] = [v, 2]
        elif k == 2:
            sig.append(f"a{i}: Dict[str, int] = {{'k': {v}}}")
            want[f"a{i}"] = {"k": v}
        elif k == 3:
            sig.append(f"a{i}: Optional[int] = None")
            want[f"a{i}"] = None
        elif k == 4:
            sig.append(f"a{i}: Tuple[int, int] = ({v}, 1)")
            want[f"a{i}"] = [v, 1]
        elif k == 5:
            sig.append(f"a{i}: str = 's{v}'")
            want[f"a{i}"] = f"s{v}"
        else:
            sig.append(f"a{i}: object = object")  # not for a configuration
    cls = d.chance(1, 2)
    name = f"made{d.choice(3)}"
    src = f"def {name}(x, *, {', '.join(sig)}):\n    return locals()\n"
    if cls:
        src = f"class {name}:\n    def __init__(self, x, {', '.join(sig)}):\n        pass\n"
    ns["__name__"] = MODULE.__name__
    exec(src, ns)
    f = ns[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        (ok, r), fired = th.interrupted(lambda: conf.enable_get_default_args(f), FILES, d.gap(7)) if d.chance(1, 3) else (("no", None), True)
        if fired:
            ctx.fault("interrupt")
            conf.enable_get_default_args(f)
        elif ok != "ok":
            raise r
        for _ in range(2):
            a = conf.get_default_args(f)
            ctx.check(listed(a) == want, "wrong-defaults-of-a-function", listed(a), want)
            with conf.open_dict(a):
                scribble(a)
        holder = dataclasses.make_dataclass("Holder", [("x", dict, conf.get_default_args_field(f))])
        for _ in range(2):
            h = holder()
            ctx.check(listed(h.x) == want, "wrong-default-of-a-field", listed(h.x), want)
            with conf.open_dict(h.x):
                scribble(h.x)
    ctx.nontrivial = True
    ctx.state(cls, n)


META = {
    "rule": "a run is one seed: 1-3 layers of generated classes (replaceable bases and implementations, configurables, members that are replaceable, optional or both, "
    "tweak hooks, pre_expand, inherited and overridden settings, nn.Modules, malformed ones), then 2-8 operations in any order: defaults, objects from full, partial, merged and "
    "serialised settings, removal of unused components, registration of more implementations or of another one of the same name, queries of the registry, the same from several threads; "
    "hooks that fail and interruptions anywhere in config.py, after which the operation is repeated; or a generated function or class and its default arguments; nontrivial = all",
    "state_measure": "distinct (operation, number of members, expanded or not, depth of inheritance) and distinct thread schedules",
    "real": "pytorch3d.implicitron.tools.config, OmegaConf, dataclasses",
    "stub": "the classes are generated; scheduler for threads and its locks",
    "assumptions": [
        "a class sees the implementations registered when it was first expanded (as documented); the order of expansion of classes that contain each other is excluded",
        "names of configurable members are not made of names of replaceable members of the same class (the format of settings cannot tell them apart)",
        "an interruption is not raised between the end of a with block and its __exit__ (a limit of the interpreter)",
    ],
    "level": "exploration",
}
SCENARIOS = [
    Scenario("history", history, 3000, 200000),
    Scenario("functions", functions, 300, 10000),
]
