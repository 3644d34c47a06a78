"""Model of the command line: what an invocation of the typer application calls, from the registered
commands, the parameters of their functions and the declared options."""
import ast

from . import terms as tt
from .interp import AnalysisError, LoadError
from .values import MISSING, Func, Lib, LibObj, PhiV

SKIP = ("typer.Context", "click.Context", "typer.CallbackParam")


class Usage(LoadError):
    """the application refuses the arguments"""


class Param:
    def __init__(self, name):
        self.name, self.kind, self.typ, self.default = name, None, "str", MISSING
        self.on, self.off, self.callback, self.eager = [], [], None, False

    @property
    def flag(self):
        return self.typ == "bool" and self.kind == "Option"


def typename(I, v):
    if isinstance(v, Lib):
        return v.name.split(".")[-1]
    return "?"


def params(I, f):
    """declared parameters of the function of a command"""
    f = I.resolve(f)
    while isinstance(getattr(f, "wrapped", None), Func):
        f = f.wrapped
    if not isinstance(f, Func):
        raise AnalysisError("a command that is not a function")
    a = f.node.args
    pos = list(a.posonlyargs) + list(a.args)
    dflt = dict(zip([x.arg for x in pos][len(pos) - len(f.defaults):], f.defaults))
    dflt.update(f.kwdefaults)
    out = []
    for x in pos + list(a.kwonlyargs):
        p = Param(x.arg)
        ann = x.annotation
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode="eval").body
        meta = None
        if ann is not None:
            optional = False
            if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
                ann, optional = ann.left, True
            t = I.resolve(I.eval(ann, f.frame))
            if isinstance(t, LibObj) and t.kind == "annotated":
                meta = next((m for m in t.d["meta"] if isinstance(m, LibObj) and m.kind == "param"), None)
                t = t.d["type"]
            if isinstance(t, Lib) and t.name in SKIP:
                p.kind = "context"
            p.typ = typename(I, t)
        d = dflt.get(x.arg, MISSING)
        decls = []
        if isinstance(d, LibObj) and d.kind == "param":
            meta, args = d, list(d.d["args"])
            d = args.pop(0) if args else d.d["kw"].get("default", MISSING)
            if isinstance(d, Lib) and d.name.endswith("Ellipsis") or d is Ellipsis:
                d = MISSING
            decls = args
        elif meta is not None:
            decls = list(meta.d["args"])
        p.default = d
        if meta is not None:
            k = meta.d["kw"]
            p.kind = meta.d["cls"]
            p.callback = k.get("callback")
            p.eager = I.resolve(k.get("is_eager", False)) is True
            if "default_factory" in k:
                p.default = LibObj("factory", f=k["default_factory"])
            for w in ("is_flag", "flag_value", "multiple", "envvar", "prompt", "confirmation_prompt", "parser", "click_type", "count"):
                if w in k:
                    raise AnalysisError(f"option {w} of a command line parameter is not modelled")
        elif p.kind is None:
            p.kind = "Argument" if d is MISSING else "Option"
        decls = [I.resolve(q) for q in decls]
        if not all(isinstance(q, str) for q in decls):
            raise AnalysisError("names of a command line option that are not literal")
        opts = [q for q in decls if q.startswith("-")]
        if p.kind == "Option":
            if not opts:
                n = x.arg.replace("_", "-").lower()
                opts = [f"--{n}/--no-{n}"] if p.typ == "bool" else [f"--{n}"]
            for q in opts:
                on, _, off = q.partition("/")
                p.on.append(on.strip())
                if off:
                    p.off.append(off.strip())
        out.append(p)
    return out


def convert(I, p, v):
    if p.typ == "str":
        return v
    if p.typ in ("Path", "PurePath", "PosixPath"):
        return I.libs.path_new(v)
    if p.typ in ("int", "float") and isinstance(v, str):
        return tt.const(int(v)) if p.typ == "int" else tt.const(float(v))
    raise AnalysisError(f"command line parameter of type {p.typ}")


def parse(I, ps, tokens, group):
    """(values by name, names given in order, remaining tokens)"""
    by = {}
    for p in ps:
        for o in p.on:
            by[o] = (p, True)
        for o in p.off:
            by[o] = (p, False)
    vals, order, rest = {}, [], []
    todo = list(tokens)
    while todo:
        t = todo.pop(0)
        if isinstance(t, str) and t.startswith("-") and len(t) > 1:
            n, eq, v = t.partition("=")
            if n not in by:
                raise Usage(f"no such option: {n}")
            p, yes = by[n]
            order.append(p)
            if p.flag:
                if eq:
                    raise Usage(f"{n} takes no value")
                vals[p.name] = yes
            else:
                if not eq and not todo:
                    raise Usage(f"{n} requires a value")
                vals[p.name] = convert(I, p, v if eq else todo.pop(0))
        elif group:
            rest = [t] + todo
            break
        else:
            rest.append(t)
    if not group:
        for p in ps:
            if p.kind == "Argument":
                if rest:
                    vals[p.name] = convert(I, p, rest.pop(0))
                elif p.default is MISSING:
                    raise Usage(f"missing argument {p.name}")
        if rest:
            raise Usage("got unexpected extra arguments")
    return vals, order, rest


def pending(I):
    return I.simp(I.exc["c"]) is not tt.FALSE


def fill(I, ps, vals, order):
    """arguments of the function: given values or defaults, through the parameter callbacks"""
    kw = {}
    seq = [p for p in order if p.eager] + [p for p in ps if p.eager and p not in order] + \
          [p for p in order if not p.eager] + [p for p in ps if not p.eager and p not in order]
    for p in seq:
        if p.kind == "context":
            kw[p.name] = LibObj("noop")
            continue
        if p.name in vals:
            v = vals[p.name]
        elif p.default is MISSING:
            raise Usage(f"missing option {p.name}")
        else:
            v = p.default
            if isinstance(v, LibObj) and v.kind == "factory":
                v = I.call(v.d["f"], [], {})
        if p.callback is not None:
            f = I.resolve(p.callback)
            args = [v]
            if isinstance(f, Func):
                args, used = [], False
                for q in list(f.node.args.posonlyargs) + list(f.node.args.args):
                    t = I.resolve(I.eval(q.annotation, f.frame)) if q.annotation is not None else None
                    if isinstance(t, Lib) and t.name in SKIP or t is None and q.arg in ("ctx", "param"):
                        args.append(LibObj("noop"))
                    elif not used:
                        args.append(v)
                        used = True
                    else:
                        raise AnalysisError("callback of a command line option with more than one value")
            v = I.call(f, args, {})
            if pending(I):
                return None
        kw[p.name] = v
    return kw


def application(I):
    app = I.resolve(I.get("geec.cli:app"))
    if not (isinstance(app, LibObj) and app.kind == "typer"):
        raise AnalysisError("geec.cli:app is not a typer application")
    if app.d["other"]:
        raise AnalysisError("nested applications")
    return app


def funcname(f):
    while isinstance(getattr(f, "wrapped", None), Func):
        f = f.wrapped
    if not isinstance(f, Func):
        raise AnalysisError("a command that is not a function")
    return f.name.split(".")[-1].lower().replace("_", "-")


def commands(I):
    return {n or funcname(f): f for n, f in application(I).d["commands"]}


def command(I, name):
    """function of a command; None when there is none of that name"""
    return commands(I).get(name)


def call_command(I, f, tokens):
    ps = params(I, f)
    vals, order, _ = parse(I, ps, tokens, False)
    kw = fill(I, ps, vals, order)
    if kw is not None:
        I.call(f, [], kw)


def invoke(I, tokens, name=None):
    """what 'geec TOKENS' does"""
    app = application(I)
    cs = commands(I)
    cb = app.d["callbacks"][-1] if app.d["callbacks"] else None
    if cb is None and len(cs) == 1:
        return call_command(I, next(iter(cs.values())), tokens)
    rest = list(tokens)
    if cb is not None:
        ps = params(I, cb)
        vals, order, rest = parse(I, ps, tokens, True)
        eager = [p for p in order if p.eager and p.callback is not None]
        if not rest and not eager:
            raise Usage("missing command")
        kw = fill(I, ps, vals, order)
        if kw is None:
            return
        if not rest:
            raise Usage("missing command")
        if rest[0] not in cs:
            raise Usage(f"no such command {rest[0]}")
        I.call(cb, [], kw)
        if pending(I):
            return
    elif not rest:
        raise Usage("missing command")
    if rest[0] not in cs:
        raise Usage(f"no such command {rest[0]}")
    call_command(I, cs[rest[0]], rest[1:])


def clean(I, v):
    """condition: the exception v ends the program with status 0"""
    v = I.resolve(v) if v is not None else v
    if isinstance(v, PhiV):
        return tt.phi(v.c, clean(I, v.a), clean(I, v.b))
    if v is None:
        return tt.FALSE
    n = I.exc_name(v).split(".")[-1]
    if n not in ("Exit", "SystemExit"):
        return tt.FALSE
    a = list(v.d.get("args") or ()) if isinstance(v, LibObj) and v.kind == "exc" else []
    k = v.d.get("kw") or {} if isinstance(v, LibObj) and v.kind == "exc" else {}
    c = a[0] if a else k.get("code", 0)
    c = I.resolve(c)
    if c is None or c is False:
        return tt.TRUE
    if isinstance(c, str):
        return tt.FALSE if c or n == "SystemExit" else tt.TRUE
    return tt.eq(tt.tm(c), tt.const(0))


def failure(I, e, v):
    """condition: an ended call that raised v under e ends the program with a status other than 0"""
    return tt.andc(e, tt.notc(clean(I, v)))
