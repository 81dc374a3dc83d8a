"""What a Display implementation writes: literal text and formatted values, decoded from the format_args! templates in MIR."""
from chk import *  # noqa
from natives import Nat

WHOLE = ()           # types shown as they are: what they write is decided elsewhere
FLAGS = [(21, '+'), (22, '-'), (23, '#'), (24, '0'), (25, 'x?'), (26, 'X?')]


class Opt:
    """formatting options of one placeholder"""
    __slots__ = ('fill', 'align', 'flags', 'width', 'prec')

    def __init__(self, fill=' ', align='', flags='', width=None, prec=None):
        self.fill, self.align, self.flags, self.width, self.prec = fill, align, flags, width, prec

    def canon(self, signless):
        """signless: the value is never negative, so zero padding can be written in two ways"""
        fill, align, flags = self.fill, self.align, self.flags
        if '0' in flags:
            fill, align = ' ', ''
        if self.width is None:
            fill, align, flags = ' ', '', flags.replace('0', '')
        if signless and fill == '0' and align == '>' and '+' not in flags:
            fill, align, flags = ' ', '', flags + '0'
        if fill == ' ' and align == '>':
            align = ''                       # numbers are aligned right anyway
        return (fill if align else ' ', align, ''.join(sorted(flags)), self.width, self.prec)

    def __repr__(self):
        return '{:%s%s%s%s%s}' % (self.fill if self.align else '', self.align, self.flags, '' if self.width is None else self.width,
                                  '' if self.prec is None else '.%d' % self.prec)


def decode(tpl, al):
    """pieces of a template: bytes or (argument, Opt)"""
    if al is None:
        return [tpl]
    out, i, n = [], 0, 0
    while True:
        b = tpl[i]
        i += 1
        if b == 0:
            if i != len(tpl):
                raise Undecided('format template')
            return out
        if b < 0x80:
            out.append(tpl[i:i + b])
            i += b
        elif b == 0x80:
            k = tpl[i] | tpl[i + 1] << 8
            out.append(tpl[i + 2:i + 2 + k])
            i += 2 + k
        elif b == 0xC0:
            out.append((al[n], Opt()))
            n += 1
        elif b > 0xC0:
            fl, w, pr = ord(' ') | 3 << 29, 0, 0
            if b & 1:
                fl = int.from_bytes(tpl[i:i + 4], 'little')
                i += 4
            if b & 2:
                w = int.from_bytes(tpl[i:i + 2], 'little')
                i += 2
            if b & 4:
                pr = int.from_bytes(tpl[i:i + 2], 'little')
                i += 2
            if b & 8:
                n = int.from_bytes(tpl[i:i + 2], 'little')
                i += 2

            def dyn(k):
                v = al[k][2]
                if not isinstance(v, N.Node) or v.op != 'ic':
                    raise Undecided('width or precision that is not constant')
                return v.p
            if b & 16:
                w = dyn(w)
            if b & 32:
                pr = dyn(pr)
            out.append((al[n], Opt(chr(fl & 0x1fffff), '<>^ '[fl >> 29 & 3].strip(), ''.join(s for k, s in FLAGS if fl >> k & 1),
                                   w if fl >> 27 & 1 else None, pr if fl >> 28 & 1 else None)))
            n += 1
        else:
            raise Undecided('format template')


def nofail(b):
    """truth of a condition when no write fails; None if it depends on anything else"""
    if b.op == 'bs' and str(b.p).startswith('fmtok'):
        return True
    if b.op == 'bc':
        return bool(b.p)
    if b.op == 'not':
        d = nofail(b.args[0])
        return None if d is None else not d
    if b.op in ('ite', 'bite'):
        d = nofail(b.args[0])
        return None if d is None else nofail(b.args[1 if d else 2])
    return None


def written(c, key, val, prog, depth=0, s=None):
    """list of texts a Display may write (no write failing): each a list of bytes and (kind, type, value, Opt)"""
    p = c.prog(prog)
    s = s or Interp(p)
    ref = val if val.__class__ is Ref else Ref(s.alloc(val))
    body = p.fns[key]['body']
    call(c, key, ref, s.sym(body['locals'][2], 'arg1'), s=s, prog=prog)
    return texts_of(c, p, prog, s.mem.get(('log',), Nat('log', ())), depth)


def texts_of(c, p, prog, lg, depth=0):
    """the texts in a log of writes"""
    texts = []

    def go(v, n):
        if n > 64:
            raise Undecided('too many different texts')
        if v.__class__ is IteVal:
            d = nofail(v.c)
            if d is not None:
                return go(v.a if d else v.b, n)
            go(v.a, n + 1)
            return go(v.b, n + 1)
        texts.append(v.x)
    go(lg, 0)
    out = []
    for t in texts:
        l = []
        for e in t:
            if e[1] != 'arg1':
                raise Undecided('writes to another formatter')
            if e[0] == 'str':
                if e[2].__class__ is Str:
                    l.append(e[2].b)
                elif e[2].__class__ is Nat and e[2].k == 'string':
                    l += spliced(c, p, prog, e[2], depth)
                else:
                    raise Undecided('text that is not a literal')
            elif e[0] == 'fmt':
                l += pieces(c, p, prog, e[2], e[3], depth)
            else:
                raise Undecided('formatting with the options of the caller: ' + e[0])
        m = []
        for x in l:
            if isinstance(x, bytes) and m and isinstance(m[-1], bytes):
                m[-1] += x
            elif x != b'':
                m.append(x)
        out.append(m)
    return out


def pieces(c, p, prog, tpl, args, depth):
    l = []
    for x in decode(tpl, args):
        l += [x] if isinstance(x, bytes) else shown(c, p, prog, x[0], x[1], depth)
    return l


def spliced(c, p, prog, v, depth):
    """the text of a String made with format! or to_string"""
    l = []
    for tpl, args in v.x:
        l += pieces(c, p, prog, tpl, args, depth)
    return l


def constant_text(b, opt):
    """a constant string with the given options"""
    if opt.prec is not None or opt.flags:
        return None
    try:
        n = (opt.width or 0) - len(b.decode())
    except UnicodeDecodeError:
        return None
    if n <= 0:
        return b
    fill = opt.fill.encode()
    left = {'': 0, '<': 0, '>': n, '^': n // 2}[opt.align]
    return fill * left + b + fill * (n - left)


def shown(c, p, prog, arg, opt, depth):
    kind, ty, v = arg
    while p.types[ty]['k'] == 'ref':
        ty = p.types[ty]['e']
    if p.types[ty]['k'] == 'dyn' and v.__class__ is Agg and v.ty in p.types:
        ty = v.ty
    if kind == 'display' and v.__class__ is Str and p.types[ty]['k'] == 'str':
        b = constant_text(v.b, opt)
        if b is not None:
            return [b] if b else []
    if kind == 'display' and p.types[ty]['k'] == 'char' and v.__class__ is N.Node and v.op == 'ic':
        b = constant_text(chr(v.p).encode(), opt)
        if b is not None:
            return [b]
    if kind == 'display' and v.__class__ is Nat and v.k == 'string':
        l = spliced(c, p, prog, v, depth)
        if opt.width is None and opt.prec is None:
            return l
        if all(isinstance(x, bytes) for x in l):
            b = constant_text(b''.join(l), opt)
            if b is not None:
                return [b]
        raise Undecided('padding of a text')
    if p.types[ty]['k'] == 'adt' and kind == 'display' and not p.types[ty]['name'].startswith(WHOLE):
        for k, f in p.fns.items():
            if k.endswith('std::fmt::Display>::fmt') and f.get('body') and p.types[f['body']['locals'][1]].get('e') == ty:
                r = written(c, k, v, prog, depth + 1)
                if len(r) != 1:
                    raise Undecided('text depends on the value')
                return r[0]
        # defined in another crate: decided there
    return [(kind, p.tyname(ty), v, opt)]


def expect(c, name, A, got, want, where, loose=False):
    """obligation: the text is the wanted list of bytes and (value polynomial or node, format, signless)"""
    def text(b):
        return b' '.join(b.split()) if loose else b
    if len(got) != len(want):
        return c.ob(name, False, 'writes %d pieces, %d expected: %s' % (len(got), len(want), show(got)), where)
    for i, (g, w) in enumerate(zip(got, want)):
        if isinstance(w, bytes) or isinstance(g, bytes):
            if not (isinstance(w, bytes) and isinstance(g, bytes)) or text(g) != text(w):
                return c.ob(name, False, 'piece %d is %s, %s expected' % (i, show([g]), w if isinstance(w, bytes) else 'a value'), where)
            continue
        kind, ty, v, opt = g
        node, fmt, signless = w
        if kind != 'display':
            return c.ob(name, False, 'piece %d uses %s formatting' % (i, kind), where)
        if opt.canon(signless) != fmt.canon(signless):
            return c.ob(name, False, 'piece %d has format %r, %r expected' % (i, opt, fmt), where)
        if v is node:
            continue
        if not isinstance(v, N.Node):
            same = v.__class__ is Agg and node.__class__ is Agg and v.ty == node.ty and scalars(v) == scalars(node)
            if not same:
                return c.ob(name, False, 'piece %d shows another value' % i, where)
            continue
        bad = A.differ(A.nf(v), node.p if isinstance(node, X) else A.nf(node))
        if bad:
            return c.ob(name, False, 'piece %d shows another value: %s' % (i, A.showbad(bad)), where)
    return c.ob(name, True)


def show(l):
    return ' '.join(repr(x) if isinstance(x, bytes) else '%r' % (x[3],) for x in l)[:300]
