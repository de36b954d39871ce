"""Abstract evaluation of a Jinja template: text with holes for values."""
import glob
import re
import sys


class Unsupported(Exception):
    pass


class Hole:
    """a value of the caller: `state` is one of value, zero, nan, undef,
    text; `esc` whether its markup characters are escaped; `fmt` what was
    done to it"""

    def __init__(self, term, state='value', esc=False, fmt=()):
        self.term, self.state, self.esc, self.fmt = term, state, esc, fmt

    def but(self, **k):
        d = dict(term=self.term, state=self.state, esc=self.esc,
                 fmt=self.fmt)
        d.update(k)
        return Hole(**d)

    def __repr__(self):
        return f'<{self.term} {self.state} {"e" if self.esc else ""}>'


class Undef:
    pass


UNDEF = Undef()


class Text:
    """concatenation of str and Hole; `safe` marks it as markup"""

    def __init__(self, parts, safe=False):
        self.parts, self.safe = list(parts), safe


class Macro:
    def __init__(self, node):
        self.node = node


def parse(source):
    for p in ('/opt/venv/lib/python3*/site-packages',):
        for d in glob.glob(p):
            if d not in sys.path:
                sys.path.append(d)
    import jinja2
    return jinja2.Environment().parse(source)


class Evaluator:
    def __init__(self, tree, env, autoescape, site):
        self.tree, self.env, self.auto, self.site = tree, env, autoescape, \
            site
        self.out = []           # (part, line)

    def run(self):
        self.body(self.tree.body, self.env)
        return self.out

    # ----------------------------------------------------------- statements
    def body(self, nodes, env):
        for n in nodes:
            getattr(self, 's_' + type(n).__name__, self.bad)(n, env)

    def bad(self, n, env):
        raise Unsupported(type(n).__name__)

    def emit(self, v, line, env):
        if v is UNDEF or v is None and False:
            return
        if isinstance(v, Text):
            for p in v.parts:
                if self.auto and not v.safe:
                    p = p.but(esc=True) if isinstance(p, Hole) else \
                        escape(p)
                self.out.append((p, line))
            return
        if isinstance(v, Hole):
            if v.state == 'undef':
                return
            self.out.append((v.but(esc=v.esc or self.auto), line))
            return
        if isinstance(v, str):
            self.out.append((escape(v) if self.auto else v, line))
            return
        if isinstance(v, (int, float)) or v is None:
            self.out.append((str(v), line))
            return
        raise Unsupported('output of ' + type(v).__name__)

    def s_Output(self, n, env):
        for x in n.nodes:
            if type(x).__name__ == 'TemplateData':
                self.out.append((x.data, x.lineno))
            else:
                self.emit(self.e(x, env), x.lineno, env)

    def s_If(self, n, env):
        if self.truth(self.e(n.test, env)):
            return self.body(n.body, env)
        for b in n.elif_:
            if self.truth(self.e(b.test, env)):
                return self.body(b.body, env)
        self.body(n.else_, env)

    def s_For(self, n, env):
        it = self.e(n.iter, env)
        if isinstance(it, dict):
            it = list(it)
        if it is UNDEF:
            it = []
        if not isinstance(it, (list, tuple)):
            raise Unsupported('loop over ' + type(it).__name__)
        some = False
        for i, v in enumerate(it):
            e2 = Env(env)
            self.bind(n.target, v, e2)
            e2['loop'] = dict(index=i + 1, index0=i, first=i == 0,
                              last=i == len(it) - 1, length=len(it))
            if n.test is not None and not self.truth(self.e(n.test, e2)):
                continue
            some = True
            self.body(n.body, e2)
        if not some:
            self.body(n.else_, env)

    def s_Assign(self, n, env):
        self.bind(n.target, self.e(n.node, env), env)

    def s_With(self, n, env):
        e2 = Env(env)
        for tg, v in zip(n.targets, n.values):
            self.bind(tg, self.e(v, env), e2)
        self.body(n.body, e2)

    def s_Scope(self, n, env):
        self.body(n.body, env)

    def s_Macro(self, n, env):
        env[n.name] = Macro(n)

    def s_ScopedEvalContextModifier(self, n, env):
        save = self.auto
        for o in n.options:
            if o.key == 'autoescape':
                self.auto = self.truth(self.e(o.value, env))
        self.body(n.body, env)
        self.auto = save

    def bind(self, tg, v, env):
        k = type(tg).__name__
        if k == 'Name':
            env[tg.name] = v
        elif k == 'Tuple':
            if not isinstance(v, (list, tuple)) or len(v) != len(tg.items):
                raise Unsupported('unpacking')
            for a, b in zip(tg.items, v):
                self.bind(a, b, env)
        else:
            raise Unsupported('target ' + k)

    # ---------------------------------------------------------- expressions
    def e(self, n, env):
        return getattr(self, 'e_' + type(n).__name__, self.bad)(n, env)

    def e_Const(self, n, env):
        return n.value

    def e_TemplateData(self, n, env):
        return Text([n.data], True)

    def e_Name(self, n, env):
        return env.get(n.name, UNDEF)

    def e_Tuple(self, n, env):
        return tuple(self.e(x, env) for x in n.items)

    def e_List(self, n, env):
        return [self.e(x, env) for x in n.items]

    def e_Dict(self, n, env):
        return {self.e(x.key, env): self.e(x.value, env) for x in n.items}

    def lookup(self, o, k):
        if isinstance(o, dict):
            v = o.get(k, UNDEF)
            return UNDEF if isinstance(v, Hole) and v.state == 'undef' else v
        if isinstance(o, (list, tuple)) and isinstance(k, int):
            return o[k] if -len(o) <= k < len(o) else UNDEF
        if o is UNDEF:
            raise Unsupported('attribute of an undefined value')
        raise Unsupported(f'{k} of {type(o).__name__}')

    def e_Getattr(self, n, env):
        return self.lookup(self.e(n.node, env), n.attr)

    def e_Getitem(self, n, env):
        return self.lookup(self.e(n.node, env), self.e(n.arg, env))

    def e_CondExpr(self, n, env):
        if self.truth(self.e(n.test, env)):
            return self.e(n.expr1, env)
        return self.e(n.expr2, env) if n.expr2 is not None else UNDEF

    def e_Not(self, n, env):
        return not self.truth(self.e(n.node, env))

    def e_And(self, n, env):
        a = self.e(n.left, env)
        return self.e(n.right, env) if self.truth(a) else a

    def e_Or(self, n, env):
        a = self.e(n.left, env)
        return a if self.truth(a) else self.e(n.right, env)

    def e_Compare(self, n, env):
        a = self.e(n.expr, env)
        for o in n.ops:
            b = self.e(o.expr, env)
            if not self.compare(o.op, a, b):
                return False
            a = b
        return True

    def compare(self, op, a, b):
        if isinstance(a, Hole) or isinstance(b, Hole):
            if a is None or b is None:
                if op in ('eq', 'ne'):
                    return op == 'ne'
            if isinstance(a, Hole) and isinstance(b, Hole) and \
                    a.term is b.term and op in ('eq', 'ne'):
                return (op == 'eq') == (a.state != 'nan')
            h, o = (a, b) if isinstance(a, Hole) else (b, a)
            if h.state == 'zero' and isinstance(o, (int, float)):
                x, y = (0, o) if h is a else (o, 0)
                return self.compare(op, x, y)
            if h.state == 'nan' and isinstance(o, (int, float)):
                return op == 'ne'
            if h.state in ('value', 'text') and o in (0, '') and \
                    op in ('eq', 'ne'):
                return op == 'ne'
            raise Unsupported('comparison of a value')
        import operator
        if op in ('in', 'notin'):
            return (a in b) == (op == 'in')
        return {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt,
                'lteq': operator.le, 'gt': operator.gt,
                'gteq': operator.ge}[op](a, b)

    def e_Test(self, n, env):
        v = self.e(n.node, env)
        if n.name in ('defined', 'undefined'):
            u = v is UNDEF
            return u == (n.name == 'undefined')
        if n.name == 'nan':
            return isinstance(v, Hole) and v.state == 'nan'
        if n.name == 'none':
            return v is None
        if n.name == 'string':
            return isinstance(v, str) or isinstance(v, Hole) and \
                v.state == 'text'
        if n.name == 'number':
            return isinstance(v, (int, float)) or isinstance(v, Hole) and \
                v.state in ('value', 'zero', 'nan')
        raise Unsupported('test ' + n.name)

    def e_Filter(self, n, env):
        v = self.e(n.node, env) if n.node is not None else UNDEF
        a = [self.e(x, env) for x in n.args]
        f = n.name
        if f in ('e', 'escape', 'forceescape'):
            if isinstance(v, Hole):
                return v.but(esc=True)
            if isinstance(v, Text):
                return Text([p.but(esc=True) if isinstance(p, Hole) else
                             (p if v.safe else escape(p)) for p in v.parts],
                            True)
            if isinstance(v, str):
                return Text([escape(v)], True)
            return v
        if f == 'safe':
            return Text(v.parts if isinstance(v, Text) else [v], True)
        if f in ('default', 'd'):
            if v is UNDEF or len(a) > 1 and a[1] and not self.truth(v):
                return a[0] if a else ''
            return v
        if f in ('string', 'trim'):
            return v
        if f == 'items':
            return list(v.items())
        if f in ('int', 'float', 'round', 'abs', 'upper', 'lower', 'format',
                 'truncate', 'replace', 'title', 'capitalize'):
            if isinstance(v, Hole):
                return v.but(fmt=v.fmt + ((f,) + tuple(map(str, a)),))
            if v is UNDEF:
                return 0 if f in ('int', 'float') else UNDEF
        if f in ('select', 'reject', 'map', 'selectattr', 'list', 'sort',
                 'unique', 'reverse'):
            if f == 'list':
                return list(v)
        raise Unsupported('filter ' + f)

    def e_Concat(self, n, env):
        parts = []
        for x in n.nodes:
            parts += self.parts(self.e(x, env))
        return Text(parts)

    def parts(self, v):
        if isinstance(v, Text):
            return v.parts
        if v is UNDEF:
            return []
        if isinstance(v, (str, Hole)):
            return [v]
        return [str(v)]

    def e_Add(self, n, env):
        a, b = self.e(n.left, env), self.e(n.right, env)
        if isinstance(a, (str, Text)) or isinstance(b, (str, Text)):
            return Text(self.parts(a) + self.parts(b))
        raise Unsupported('addition')

    e_bad = bad

    def e_Mod(self, n, env):
        a, b = self.e(n.left, env), self.e(n.right, env)
        if isinstance(a, str) and '%' in a:
            vs = list(b) if isinstance(b, tuple) else [b]
            out = []
            i = 0
            while i < len(a):
                if a[i] == '%' and a[i:i + 2] == '%s' and vs:
                    out += self.parts(vs.pop(0))
                    i += 2
                elif a[i] == '%':
                    raise Unsupported('% format')
                else:
                    j = a.find('%', i)
                    j = len(a) if j < 0 else j
                    out.append(a[i:j])
                    i = j
            return Text(out)
        raise Unsupported('%')

    def e_Call(self, n, env):
        import jinja2.nodes as N
        args = [self.e(x, env) for x in n.args]
        kw = {k.key: self.e(k.value, env) for k in n.kwargs}
        if isinstance(n.node, N.Name):
            m = env.get(n.node.name, UNDEF)
            if isinstance(m, Macro):
                return self.call_macro(m, args, kw, env)
            raise Unsupported('call of ' + n.node.name)
        if isinstance(n.node, (N.Getattr,)):
            o = self.e(n.node.node, env)
            f = n.node.attr
            if isinstance(o, str) and f == 'format':
                return self.fmt(o, args, kw)
            if isinstance(o, dict) and f in ('items', 'keys', 'values',
                                             'get'):
                if f == 'get':
                    return self.lookup(o, args[0]) if args[0] in o else (
                        args[1] if len(args) > 1 else None)
                return list(getattr(o, f)())
            if isinstance(o, Hole) and f in ('strftime', 'isoformat',
                                             'format'):
                return o.but(fmt=o.fmt + ((f,) + tuple(map(str, args)),))
            if isinstance(o, Hole) and f in ('strip',):
                return o
        raise Unsupported('call')

    def call_macro(self, m, args, kw, env):
        e2 = Env(env)
        names = [a.name for a in m.node.args]
        nd = len(m.node.defaults)
        for x, d in zip(names[len(names) - nd:], m.node.defaults):
            e2[x] = self.e(d, env)
        for x, v in zip(names, args):
            e2[x] = v
        for k, v in kw.items():
            e2[k] = v
        for x in names:
            if x not in e2:
                e2[x] = UNDEF
        save, self.out = self.out, []
        self.body(m.node.body, e2)
        got, self.out = self.out, save
        return Text([p for p, _ in got], True)

    def fmt(self, s, args, kw):
        import string
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                out.append(lit)
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kw:
                v = kw[field]
            else:
                raise Unsupported('format field ' + field)
            for p in self.parts(v):
                if isinstance(p, Hole) and (spec or conv):
                    p = p.but(fmt=p.fmt + (('format', spec or conv),))
                out.append(p)
        return Text(out)

    def truth(self, v):
        if isinstance(v, Hole):
            return v.state not in ('zero', 'undef', 'empty')
        if v is UNDEF:
            return False
        if isinstance(v, Text):
            return any(p != '' for p in v.parts)
        return bool(v)


class Env(dict):
    def __init__(self, up):
        super().__init__()
        self.up = up

    def get(self, k, d=None):
        return self[k] if k in self.keys() else self.up.get(k, d)


def escape(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace(
        '>', '&gt;').replace("'", '&#39;').replace('"', '&#34;')


def unescape(s):
    return s.replace('&lt;', '<').replace('&gt;', '>').replace(
        '&#39;', "'").replace('&#34;', '"').replace('&quot;', '"').replace(
        '&apos;', "'").replace('&amp;', '&')


class NotXML(Exception):
    def __init__(self, msg, line):
        super().__init__(msg)
        self.line = line


def xml_events(out):
    """(kind, ...) events of the document: ('start', tag, {attr: parts},
    line), ('text', parts, line), ('end', tag, line)"""
    ev, stack = [], []
    text = []
    state = 'text'
    tag, attrs, name, quote = '', {}, '', ''
    aparts = []
    line = 0
    selfclose = False

    def flush():
        nonlocal text
        if text:
            ev.append(('text', text, line))
            text = []

    def close_tag():
        nonlocal tag, attrs, selfclose
        if tag.startswith('/'):
            if not stack or stack[-1] != tag[1:]:
                raise NotXML(f'</{tag[1:]}> closes <'
                             f'{stack[-1] if stack else ""}>', line)
            stack.pop()
            ev.append(('end', tag[1:], line))
        else:
            ev.append(('start', tag, attrs, line))
            if selfclose:
                ev.append(('end', tag, line))
            else:
                stack.append(tag)
        tag, attrs, selfclose = '', {}, False

    for part, line in out:
        if isinstance(part, Hole):
            if state == 'text':
                text.append(part)
            elif state == 'attr':
                aparts.append(part)
            elif state == 'skip':
                pass
            else:
                raise Unsupported('value in a tag')
            continue
        i = 0
        while i < len(part):
            ch = part[i]
            if state == 'text':
                if ch == '<':
                    flush()
                    if part.startswith('<!--', i):
                        state = 'skip'
                        end = '-->'
                    elif part.startswith('<?', i):
                        state = 'skip'
                        end = '?>'
                    elif part.startswith('<!', i):
                        raise Unsupported('declaration')
                    else:
                        state, tag, attrs = 'tag', '', {}
                else:
                    text.append(ch)
            elif state == 'skip':
                if part.startswith(end, i):
                    i += len(end) - 1
                    state = 'text'
            elif state == 'tag':
                if ch == '>':
                    state = 'text'
                    close_tag()
                elif ch == '/' and tag:
                    selfclose = True
                elif ch.isspace():
                    state, name = 'inside', ''
                else:
                    tag += ch
            elif state == 'inside':
                if ch == '>':
                    state = 'text'
                    close_tag()
                elif ch == '/':
                    selfclose = True
                elif ch in '"\'':
                    state, quote, aparts = 'attr', ch, []
                elif ch == '=' or ch.isspace():
                    pass
                else:
                    name += ch
            elif state == 'attr':
                if ch == quote:
                    attrs[name.strip()] = aparts
                    name, state = '', 'inside'
                else:
                    aparts.append(ch)
            i += 1
    if stack or state != 'text':
        raise NotXML('document is not closed: ' + '/'.join(stack), line)
    flush()
    # join characters
    res = []
    for e in ev:
        if e[0] == 'text':
            res.append(('text', joined(e[1], e[2]), e[2]))
        elif e[0] == 'start':
            res.append(('start', e[1], {k: joined(v, e[3])
                                        for k, v in e[2].items()}, e[3]))
        else:
            res.append(e)
    return res


def joined(parts, line=0):
    out = []
    for p in parts:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    for p in out:
        if isinstance(p, str) and re.search(
                r'&(?!(amp|lt|gt|quot|apos|#\d+|#x[0-9a-fA-F]+);)', p):
            raise NotXML(f'unescaped & in {p.strip()!r}', line)
    return [unescape(p) if isinstance(p, str) else p for p in out]
