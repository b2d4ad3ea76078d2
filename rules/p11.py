"""Every string is interpreted as a template of literal pieces, quoted pieces, safe pieces (numbers, whitelisted text) and raw
pieces; every call that hands a string to a shell is an obligation: no raw piece may be in it, and a quoted piece must sit
outside of any quotes of the surrounding text.  A whitelist counts when its pattern covers the whole string and admits only
characters the shell does not interpret."""
import ast
import itertools
import re
import string

try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:                                     # python < 3.11
    import sre_parse
    import sre_constants as sre

from sa.alias import AliasDomain
from sa.driver import Driver, entries
from sa.engine import Domain
from sa.project import AnalysisBroken, where
from sa.values import EMPTY, Data, ExtM, ExtV, FnV, V

from .api import API
from .common import Report

MINIMUM = {"operations": 270, "shell_calls": 5}
SAFE_CHARS = set(string.ascii_letters + string.digits + "_@%+=:,./-")
RAW = frozenset([("raw",)])
SAFE = frozenset([("safe",)])
SHELLS = {"sh", "bash", "dash", "zsh", "/bin/sh", "/bin/bash", "cmd", "cmd.exe"}
SINK_TEXT = {"os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "asyncio.create_subprocess_shell"}
SINK_SUB = {"subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "subprocess.Popen"}
MAXALT = 24


def chars_of(items):
    """characters a parsed regular expression can match, None when unbounded"""
    out = set()
    for op, av in items:
        if op is sre.LITERAL:
            out.add(chr(av))
        elif op is sre.IN:
            for o, a in av:
                if o is sre.LITERAL:
                    out.add(chr(a))
                elif o is sre.RANGE:
                    out |= {chr(c) for c in range(a[0], min(a[1], 0x2ff) + 1)}
                elif o is sre.CATEGORY and a is sre.CATEGORY_WORD:
                    out |= set(string.ascii_letters + string.digits + "_")
                elif o is sre.CATEGORY and a is sre.CATEGORY_DIGIT:
                    out |= set(string.digits)
                else:
                    return None
        elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
            c = chars_of(av[2])
            if c is None:
                return None
            out |= c
        elif op is sre.SUBPATTERN:
            c = chars_of(av[3])
            if c is None:
                return None
            out |= c
        elif op is sre.BRANCH:
            for b in av[1]:
                c = chars_of(b)
                if c is None:
                    return None
                out |= c
        elif op is sre.AT:
            pass
        else:
            return None
    return out


def whitelist(kind, pattern):
    """does a successful re.<kind>(pattern, s) imply that s holds harmless characters only"""
    try:
        t = list(sre_parse.parse(pattern))
    except Exception:
        return False
    c = chars_of(t)
    if c is None or not c <= SAFE_CHARS:
        return False
    end = bool(t) and t[-1][0] is sre.AT and t[-1][1] in (sre.AT_END, sre.AT_END_STRING)
    begin = bool(t) and t[0][0] is sre.AT and t[0][1] in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING)
    return kind == "fullmatch" or (kind == "match" and end) or (kind == "search" and begin and end)


class ShellDomain(AliasDomain):
    name = "shell"

    def __init__(self):
        super().__init__()
        self.sinks = {}

    # ---- templates: frozenset of tuples of parts ("lit", text) | ("raw",) | ("quoted",) | ("safe",)
    def join_x(self, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return None
        if a is None or b is None:
            return None
        return a | b if len(a | b) <= MAXALT else RAWT

    def widen_x(self, x):
        return x if x is None or isinstance(x, tuple) or len(x) <= 4 else RAWT

    def const_x_join(self, consts):
        if all(c[0] in ("str", "int", "float", "bool") for c in consts):
            return frozenset((("lit", str(c[1])),) for c in consts) if len(consts) <= MAXALT else RAWT
        return None

    def collapse_x(self, v):
        return self.tpl(v)

    def tpl(self, v):
        """alternatives of the text of v"""
        out = set()
        for c in v.consts:
            if c[0] != "NoneType":
                out.add((("lit", str(c[1])),))
        d = v.data
        if d is not None:
            if d.ty == "num":
                out.add((("safe",),))
            elif isinstance(d.x, frozenset):
                out |= d.x
            else:
                out.add((("raw",),))
        for _, t in v.tups:
            for i in t:
                out |= {p for p in self.tpl(i)}
        if v.refs or v.fns:
            out.add((("raw",),))
        return frozenset(out) if len(out) <= MAXALT else RAWT

    def cat(self, ts):
        out = []
        n = 1
        for t in ts:
            n *= max(1, len(t))
        if n > MAXALT:
            # worst parts first, one alternative
            ps = set(p for t in ts for a in t for p in a)
            return RAWT if ("raw",) in ps else frozenset([tuple(x for t in ts for x in sorted(t, key=len)[-1])]) if ("quoted",) not in ps else RAWT
        for combo in itertools.product(*ts):
            parts = []
            for a in combo:
                for p in a:
                    if parts and p[0] == "lit" and parts[-1][0] == "lit":
                        parts[-1] = ("lit", parts[-1][1] + p[1])
                    else:
                        parts.append(p)
            if len(parts) > 60:
                parts = [("raw",)] if ("raw",) in parts else parts[:60]
            out.append(tuple(parts))
        return frozenset(out)

    def binop(self, eng, st, op, l, r, node):
        if isinstance(op, ast.Add):
            return self.cat([self.tpl(l), self.tpl(r)])
        if isinstance(op, ast.Mod) and l.only_consts() and all(c[0] == "str" for c in l.consts):
            args = [i for _, t in r.tups for i in t] or [r]
            return self.interleave(l, r"%[-+ #0]*[\d*.]*([a-zA-Z])", args, lambda m: m.group(1) in "dioxXeEfFgG")
        if self.numeric(l) and self.numeric(r):
            return SAFET
        return RAWT if ("raw",) in {p for v in (l, r) for a in self.tpl(v) for p in a} else None

    def interleave(self, fmt, pat, args, numeric):
        out = set()
        for c in fmt.consts:
            ts, pos, i = [], 0, 0
            for m in re.finditer(pat, c[1]):
                ts.append(frozenset([(("lit", c[1][pos:m.start()]),)]))
                pos = m.end()
                if numeric(m):
                    ts.append(SAFET)
                elif i < len(args):
                    ts.append(self.tpl(args[i]))
                else:
                    ts.append(RAWT)
                i += 1
            ts.append(frozenset([(("lit", c[1][pos:]),)]))
            out |= self.cat(ts)
        return frozenset(out)

    def numeric(self, v):
        return not v.refs and not v.tups and not v.fns and (v.data is None or v.data.ty in ("num",)) and all(c[0] in ("int", "float", "bool") for c in v.consts)

    def fstring(self, eng, st, parts, node):
        ts = []
        for p, v in zip(parts, node.values):
            if isinstance(v, ast.FormattedValue) and v.format_spec is not None:
                spec = ast.unparse(v.format_spec).strip("f'\"")
                ts.append(SAFET if spec[-1:] in tuple("dfeEgGxXob%") else self.tpl(p))
            elif isinstance(v, ast.FormattedValue) and v.conversion == 114 and not self.numeric(p):
                ts.append(RAWT)
            else:
                ts.append(self.tpl(p))
        return self.cat(ts)

    def ext_call(self, eng, st, path, args, kwargs, node):
        if path == "shlex.quote" and args:
            t = self.tpl(args[0])
            return frozenset([(("quoted",),)]) if any(("raw",) in a or ("quoted",) in a for a in t) else frozenset([(("quoted",),)])
        if path == "shlex.join":
            return frozenset([(("quoted",),)])
        if path in ("re.fullmatch", "re.match", "re.search") and len(args) >= 2:
            return None
        if path in ("re.sub",) and len(args) >= 3:
            # everything but harmless characters removed
            pat, repl = args[0].const_or(None), args[1].const_or(None)
            if isinstance(pat, str) and isinstance(repl, str) and set(repl) <= SAFE_CHARS:
                try:
                    t = list(sre_parse.parse(pat))
                except Exception:
                    return RAWT
                if len(t) == 1 and t[0][0] in (sre.MAX_REPEAT,):
                    t = list(t[0][1][2])
                if len(t) == 1 and t[0][0] is sre.IN and t[0][1][0][0] is sre.NEGATE:
                    c = chars_of([(sre.IN, t[0][1][1:])])
                    if c is not None and c <= SAFE_CHARS:
                        return SAFET
            return RAWT
        if path in ("builtins.str", "builtins.repr", "builtins.format") and args:
            return SAFET if self.numeric(args[0]) else (self.tpl(args[0]) if path != "builtins.repr" else RAWT)
        if path in ("os.path.join", "posixpath.join"):
            ts = []
            for i, a in enumerate(args):
                if i:
                    ts.append(frozenset([(("lit", "/"),)]))
                ts.append(self.tpl(a))
            return self.cat(ts)
        ps = {p for a in list(args) + list(kwargs.values()) for t in self.tpl(a) for p in t}
        return RAWT if ("raw",) in ps or path in ("builtins.input", "builtins.open", "os.listdir", "os.getcwd") else None

    def method(self, eng, st, recv, name, args, kwargs, node):
        if name == "join" and args:
            sep = self.tpl(recv)
            items = eng.seq_items(st, args[0])
            if items is not None:
                ts = []
                for i, a in enumerate(items):
                    if i:
                        ts.append(sep)
                    ts.append(self.tpl(a))
                return self.cat(ts) if ts else frozenset([(("lit", ""),)])
            el = eng.iterate(st, args[0], node)[0]
            return self.cat([self.tpl(el), sep, self.tpl(el)])
        if name == "format":
            if recv.only_consts() and not kwargs:
                return self.interleave(recv, r"\{[^{}]*\}", args, lambda m: ":" in m.group(0) and m.group(0)[-2] in "dfeEgGxX")
            return RAWT if any(("raw",) in t for a in list(args) + list(kwargs.values()) for t in self.tpl(a)) else None
        t = self.tpl(recv)
        if name in ("strip", "lstrip", "rstrip", "lower", "upper", "encode", "decode", "casefold", "title") and t and all(p[0] in ("safe",) for a in t for p in a):
            return SAFET
        return RAWT

    def subscript(self, eng, st, base, idx, node):
        t = self.tpl(base)
        if base.data is not None and base.data.ty == "num":
            return SAFET
        if t and all(p[0] == "safe" for a in t for p in a):
            return SAFET
        return None

    def attr(self, eng, st, base, name, node):
        return None

    # ---- whitelists
    def refine(self, eng, st, test, val):
        for e in self.safe_if(eng, st, test, val):
            v = eng.peek(e, st)
            if v is not None:
                d = v.data
                if d is not None or v.fns or v.refs or v.tups:
                    eng.poke(e, st, V(EMPTY, Data(d.st if d is not None else EMPTY, "str", SAFET)))

    def safe_if(self, eng, st, test, val, sub=None, depth=0):
        """expressions that hold harmless text when test is val"""
        sub = sub or {}

        def target(e):
            if isinstance(e, ast.Name) and sub:
                return sub.get(e.id)
            return e if isinstance(e, (ast.Name, ast.Attribute)) else None

        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.safe_if(eng, st, test.operand, not val, sub, depth)
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, op, r = test.left, test.ops[0], test.comparators[0]
            if isinstance(r, ast.Constant) and r.value is None and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                return self.safe_if(eng, st, l, isinstance(op, (ast.IsNot, ast.NotEq)) == val, sub, depth)
            if isinstance(op, ast.LtE) and val and isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id in ("set", "frozenset") and l.args:
                return self.only(target(l.args[0])) if self.const_set(eng, st, r) else []
            return []
        if isinstance(test, (ast.Name, ast.Attribute)) and depth < 2 and not sub:
            v = eng.peek(test, st)
            # m = re.fullmatch(...); if m
            if val and v is not None and v.data is not None and isinstance(v.data.x, tuple) and v.data.x[0] == "match":
                return [ast.Name(id=n) for n in v.data.x[1]]
            return []
        if not (val and isinstance(test, ast.Call)):
            return []
        f = test.func
        if isinstance(f, ast.Name) and f.id == "bool" and test.args:
            return self.safe_if(eng, st, test.args[0], val, sub, depth)
        if isinstance(f, ast.Name) and f.id == "all" and test.args and isinstance(test.args[0], (ast.GeneratorExp, ast.ListComp)) and len(test.args[0].generators) == 1:
            g = test.args[0].generators[0]
            if isinstance(g.target, ast.Name) and not g.ifs and self.char_ok(eng, st, test.args[0].elt, g.target.id):
                return self.only(target(g.iter))
            return []
        if isinstance(f, ast.Attribute) and f.attr in ("isalnum", "isdigit", "isalpha", "isidentifier", "isnumeric", "isdecimal") and not test.args:
            return self.only(target(f.value))
        kind = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
        if kind in ("fullmatch", "match", "search"):
            fv = None
            if sub:
                pat = self.resolve_const(eng, st, test.args[0]) if len(test.args) == 2 else None
            else:
                fv = eng.eval_quiet(f, st)
                pat = self.resolve_const(eng, st, test.args[0]) if len(test.args) == 2 else None
            if len(test.args) == 2 and isinstance(pat, str):
                return self.only(target(test.args[1])) if whitelist(kind, pat) else []
            if len(test.args) == 1 and isinstance(f, ast.Attribute):
                # compiled pattern
                v = eng.eval_quiet(f.value, st)
                if v.data is not None and isinstance(v.data.x, tuple) and v.data.x[0] == "pattern" and whitelist(kind, v.data.x[1]):
                    return self.only(target(test.args[0]))
            return []
        # a helper of the package whose body is a single returned test
        if depth < 2:
            fv = eng.eval_quiet(f, st)
            for t in fv.fns:
                if isinstance(t, FnV) and not isinstance(t.node, ast.Lambda) and len(fv.fns) == 1:
                    body = [b for b in t.node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
                    if len(body) == 1 and isinstance(body[0], ast.Return) and body[0].value is not None:
                        m = {p.arg: target(a) for p, a in zip(t.node.args.args, test.args)}
                        return [x for x in self.safe_if(eng, st, body[0].value, True, m, depth + 1) if x is not None]
        return []

    def only(self, e):
        return [e] if e is not None else []

    def resolve_const(self, eng, st, e):
        if isinstance(e, ast.Constant):
            return e.value
        try:
            return eng.eval_quiet(e, st).const_or(None)
        except Exception:
            return None

    def const_set(self, eng, st, e):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("set", "frozenset") and e.args:
            e = e.args[0]
        c = self.text_const(eng, st, e)
        return isinstance(c, str) and set(c) <= SAFE_CHARS

    def text_const(self, eng, st, e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.text_const(eng, st, e.left), self.text_const(eng, st, e.right)
            return a + b if isinstance(a, str) and isinstance(b, str) else None
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "string" and e.attr in ("ascii_letters", "digits", "ascii_lowercase", "ascii_uppercase"):
            return getattr(string, e.attr)
        if isinstance(e, (ast.Set, ast.List, ast.Tuple)) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in e.elts):
            return "".join(x.value for x in e.elts)
        return self.resolve_const(eng, st, e)

    def char_ok(self, eng, st, e, var):
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            return all(self.char_ok(eng, st, x, var) for x in e.values)
        if isinstance(e, ast.BoolOp):
            return any(self.char_ok(eng, st, x, var) for x in e.values)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.Eq)) and isinstance(e.left, ast.Name) and e.left.id == var:
            return self.const_set(eng, st, e.comparators[0])
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == var:
            return e.func.attr in ("isalnum", "isdigit", "isalpha", "isidentifier")
        return False

    def store_name(self, eng, st, name, v, node):
        # m = re.fullmatch(pattern, x): remember what a successful match says
        val = getattr(node, "value", None)
        if isinstance(val, ast.Call) and v.data is not None:
            f = val.func
            kind = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if kind in ("fullmatch", "match", "search"):
                safe = [e.id for e in self.safe_if(eng, st, val, True) if isinstance(e, ast.Name)]
                if safe:
                    return V(v.consts, Data(v.data.st, v.data.ty, ("match", tuple(safe))), v.tups, v.refs, v.fns, v.unbound)
            if kind == "compile" and val.args:
                pat = self.resolve_const(eng, st, val.args[0])
                if isinstance(pat, str):
                    return V(v.consts, Data(v.data.st, v.data.ty, ("pattern", pat)), v.tups, v.refs, v.fns, v.unbound)
        return v

    # ---- sinks
    def event(self, eng, st, kind, node, **info):
        if eng.entry is None or kind != "extcall":
            return
        path, args, kw = info["path"], info["args"], info["kwargs"]
        if path in SINK_TEXT and (args or "command" in kw or "cmd" in kw):
            self.sink(eng, st, path, args[0] if args else list(kw.values())[0], node)
        elif path in SINK_SUB and (args or "args" in kw):
            a = args[0] if args else kw["args"]
            sh = kw.get("shell")
            if sh is not None and not (sh.is_single_const() and not sh.const()):
                self.sink(eng, st, path + "(shell=True)", a, node)
            else:
                items = eng.seq_items(st, a)
                if items and len(items) >= 3 and items[0].const_or(None) in SHELLS:
                    self.sink(eng, st, path + " of a shell", items[2], node)
                else:
                    self.sinks.setdefault((where(node), path), {})

    def sink(self, eng, st, path, v, node):
        items = eng.seq_items(st, v)
        ts = self.tpl(items[0]) if items else self.tpl(v)
        d = self.sinks.setdefault((where(node), path), {})
        for t in ts:
            why = self.bad(t)
            if why:
                f = getattr(node, "_func", None)
                d.setdefault((getattr(f, "_qual", "<module>"), why), (eng.entry.label, self.chain(eng), self.text(t)))

    def text(self, t):
        return "".join(p[1] if p[0] == "lit" else f"<{p[0]}>" for p in t)[:160]

    def bad(self, t):
        q = None
        esc = False
        for p in t:
            if p[0] == "raw":
                return "unquoted text"
            if p[0] == "quoted":
                if q is not None:
                    return "quoted text inside quotes"
                if esc:
                    return "quoted text after a backslash"
            elif p[0] == "lit":
                for c in p[1]:
                    if esc:
                        esc = False
                    elif c == "\\" and q != "'":
                        esc = True
                    elif q is None and c in "'\"":
                        q = c
                    elif c == q:
                        q = None
        return None


RAWT = frozenset([(("raw",),)])
SAFET = frozenset([(("safe",),)])


def check(project, tier):
    rep = Report()
    dom = ShellDomain()
    drv = Driver(project, dom)
    ents = [e for e in entries(project) if e.label in API]
    covered = set()
    for e in ents:
        drv.run(e)
        rep.count("operations")
    # helpers reached by no public operation are public enough when they start programs
    for (w, path), bad in sorted(dom.sinks.items(), key=str):
        rep.count("shell_calls")
        covered.add(w)
        for (fn, why), (lab, chain, txt) in sorted(bad.items(), key=str):
            rep.oblige(False, f"shell|{fn}|{why}", f"{w}: {path} gets {why}: {txt!r}; reached from {lab} ({chain})")
        if not bad:
            rep.oblige(True)
            rep.samples.append(f"{w}: {path} receives literal, numeric, quoted or whitelisted text only")
    rep.coverage["functions"] = len(drv.eng.stats["functions"])
    rep.coverage["statements_interpreted"] = drv.eng.stats["stmts"]
    return rep
