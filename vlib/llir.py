"""Parser for the subset of textual LLVM 18 IR that clang -O0 (after sroa) emits for C."""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?)
 | (?P<int>-?[0-9]+(?![a-zA-Z_.]))
 | (?P<meta>!\{?[-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_.$][-a-zA-Z_.$0-9]*)
 | (?P<punc>[()\[\]{}<>,=*:|])
)''', re.X)


def tokens(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise ValueError('token: ' + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1][1]

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.next() != s:
            raise ValueError('expected %s in %s at %d' % (s, ' '.join(x[1] for x in self.t), self.i))

    # types: ('i', n) ('f', 32|64) ('p',) ('v',) ('a', n, T) ('s', [T], packed) ('x', n, T) ('fn', ret) ('meta',)
    def type(self):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'word':
            if re.match(r'^i[0-9]+$', v):
                t = ('i', int(v[1:]))
            elif v == 'double':
                t = ('f', 64)
            elif v == 'float':
                t = ('f', 32)
            elif v == 'x86_fp80':
                t = ('f', 80)
            elif v == 'ptr':
                t = ('p',)
            elif v == 'void':
                t = ('v',)
            elif v in ('metadata', 'label', 'token'):
                t = ('meta',)
            elif v == 'opaque':
                t = ('s', [], False)
            else:
                raise ValueError('type ' + v)
        elif k == 'local':
            t = ('n', v)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('a', n, e)
        elif v == '<':
            if self.accept('{'):
                t = ('s', self.types('}'), True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('x', n, e)
        elif v == '{':
            t = ('s', self.types('}'), False)
        else:
            raise ValueError('type ' + v)
        while self.peek() == '(':  # function type
            depth = 0
            while True:
                x = self.next()
                depth += {'(': 1, ')': -1}.get(x, 0)
                if depth == 0:
                    break
            t = ('fn', t)
        return t

    def types(self, end):
        out = []
        if self.accept(end):
            return out
        while True:
            out.append(self.type())
            if self.accept(end):
                return out
            self.expect(',')

    ATTRS = {'noundef', 'zeroext', 'signext', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'noalias', 'returned', 'immarg', 'inreg', 'nofree', 'readnone', 'dead_on_unwind', 'writable', 'swiftself', 'nest', 'allocptr', 'captures'}

    def attrs(self):
        a = {}
        while True:
            v = self.peek()
            if v in self.ATTRS:
                self.i += 1
            elif v in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                self.i += 1
                if self.accept('('):
                    self.next()
                    self.expect(')')
                else:
                    self.next()
            elif v in ('byval', 'sret', 'byref', 'elementtype'):
                self.i += 1
                self.expect('(')
                a[v] = self.type()
                self.expect(')')
            elif self.kind() == 'str':
                self.i += 1
            else:
                return a

    # values: ('r', name) ('c', python value) ('g', name) ('undef',) ('zero',) ('agg', [vals]) ('str', bytes)  ('ce', op, ...)
    def value(self, ty):
        k, v = self.t[self.i]
        self.i += 1
        if k == 'local':
            return ('r', v)
        if k == 'glob':
            return ('g', v)
        if k == 'int':
            if ty[0] == 'f':
                return ('c', Fraction(v))
            return ('c', int(v))
        if k == 'num':
            return ('c', Fraction(float(v)))
        if k == 'hex':
            d = struct.unpack('>d', int(v, 16).to_bytes(8, 'big'))[0] if v[2] not in 'KLMHR' else float('nan')
            if d != d or d in (float('inf'), float('-inf')):
                return ('c', d)
            return ('c', Fraction(d))
        if k == 'str':
            return ('str', _cstr(v))
        if v == 'true':
            return ('c', True)
        if v == 'false':
            return ('c', False)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v in ('[', '{', '<'):
            end = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek() == '{':
                self.next()
                end = '}'
            out = []
            if not self.accept(end):
                while True:
                    t = self.type()
                    out.append((t, self.value(t)))
                    if self.accept(end):
                        break
                    self.expect(',')
            if v == '<' and end == '}':
                self.expect('>')
            return ('agg', out)
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            t = self.type()
            self.expect(',')
            args = []
            while True:
                at = self.type()
                args.append((at, self.value(at)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('ce', 'gep', t, args)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            x = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ce', v, t, x, t2)
        if v in ('sub', 'add', 'xor', 'and', 'or', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('ce', v, t, a, b)
        raise ValueError('value %s of %s' % (v, ' '.join(x[1] for x in self.t)))


def _cstr(v):
    if v.startswith('c'):
        v = v[1:]
    v = v[1:-1]
    out = bytearray()
    i = 0
    while i < len(v):
        if v[i] == '\\':
            out.append(int(v[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(v[i]))
            i += 1
    return bytes(out)


class Fn:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params, self.blocks, self.entry = name, ret, params, {}, None


class Module:
    def __init__(self, text):
        self.types, self.globals, self.fns, self.decls = {}, {}, {}, set()
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if not ln or ln[0] in ';!' or ln.startswith(('source_filename', 'target', 'attributes')):
                continue
            if ln[0] == '%':
                m = re.match(r'^(%(?:"[^"]*"|\S+)) = type (.*)$', ln)
                self.types[m.group(1)] = P(tokens(m.group(2)), self).type()
            elif ln[0] == '@':
                self._global(ln)
            elif ln.startswith('declare'):
                self.decls.add(re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', ln).group(0))
            elif ln.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self._define(ln, body)
        self._size = {}

    def _global(self, ln):
        name, rest = re.match(r'^(@(?:"[^"]*"|\S+)) = (.*)$', ln).groups()
        p = P(tokens(rest), self)
        ext = False
        while p.peek() not in ('global', 'constant'):
            w = p.next()
            ext = ext or w in ('external', 'extern_weak')
            if w == 'alias':
                return
        p.next()
        t = p.type()
        init = None
        if not ext:
            init = p.value(t)
        self.globals[name] = (t, init, ' constant ' in ln)

    def _define(self, ln, body):
        ln = ln[:ln.rindex('{')]
        head, name = re.match(r'^define (.*?)(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln).groups()
        p = P(tokens(ln[len('define ') + len(head) + len(name):]), self)
        hp = P(tokens(head), self)
        while hp.peek() in ('dso_local', 'internal', 'zeroext', 'signext', 'noundef', 'hidden', 'nonnull', 'weak', 'linkonce_odr', 'noalias', 'private', 'available_externally'):
            hp.next()
        ret = hp.type()
        p.expect('(')
        params = []
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    p.expect(')')
                    break
                t = p.type()
                a = p.attrs()
                params.append((t, p.next(), a))
                if p.accept(')'):
                    break
                p.expect(',')
        f = Fn(name, ret, params)
        cur = None
        k = 0
        while k < len(body):
            s = body[k]
            k += 1
            if not s.strip() or s.lstrip().startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                if f.entry is None:
                    f.entry = cur
                continue
            if cur is None:
                cur = '%' + str(len(params)) if all(re.match(r'^%[0-9]+$', x[1]) for x in params) else '%entry'
                f.blocks[cur] = []
                f.entry = cur
            if s.lstrip().startswith('switch') and s.rstrip().endswith('['):
                while not body[k].strip().startswith(']'):
                    s += ' ' + body[k]
                    k += 1
                s += ' ]'
                k += 1
            s = re.sub(r', ![a-zA-Z.]+ !.*$', '', s)
            f.blocks[cur].append(s.strip())
        self.fns[name] = f
        f.parsed = {}

    def block(self, f, bb):
        if bb not in f.parsed:
            f.parsed[bb] = [self._inst(s) for s in f.blocks[bb]]
        return f.parsed[bb]

    def _inst(self, s):
        p = P(tokens(s), self)
        dst = None
        if p.kind() == 'local' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'call':
            while p.peek() in ('nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'fastcc', 'ccc'):
                p.next()
            p.attrs()
            t = p.type()
            if t[0] == 'fn':
                t = t[1]
            k = p.kind()
            callee = p.next()
            if callee == 'asm':
                raise ValueError('inline asm')
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    a = p.attrs()
                    if at[0] == 'meta':
                        depth = 0
                        while not (depth == 0 and p.peek() in (',', ')')):
                            depth += {'(': 1, ')': -1}.get(p.next(), 0)
                        args.append((at, None, a))
                    else:
                        args.append((at, p.value(at), a))
                    if p.accept(')'):
                        break
                    p.expect(',')
            return ('call', dst, t, (k, callee), args)
        if op == 'alloca':
            t = p.type()
            n = None
            if p.accept(',') and p.peek() != 'align':
                nt = p.type()
                n = (nt, p.value(nt))
            return ('alloca', dst, t, n)
        if op == 'load':
            p.accept('volatile')
            p.accept('atomic')
            t = p.type()
            p.expect(',')
            pt = p.type()
            return ('load', dst, t, p.value(pt))
        if op == 'store':
            p.accept('volatile')
            p.accept('atomic')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            pt = p.type()
            return ('store', None, t, v, p.value(pt))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = p.type()
            args = []
            while p.accept(','):
                at = p.type()
                args.append((at, p.value(at)))
            return ('gep', dst, t, args)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'):
                p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return ('bin', dst, op, t, a, p.value(t))
        if op == 'fneg':
            t = p.type()
            return ('fneg', dst, t, p.value(t))
        if op in ('icmp', 'fcmp'):
            while p.peek() in ('nnan', 'ninf', 'nsz', 'fast', 'samesign'):
                p.next()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            return (op, dst, pred, t, a, p.value(t))
        if op in ('trunc', 'zext', 'sext', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect('to')
            return ('cast', dst, op, t, v, p.type())
        if op == 'select':
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            t2 = p.type()
            return ('select', dst, c, t, a, p.value(t2))
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((v, p.next()))
                p.expect(']')
                if not p.accept(','):
                    break
            return ('phi', dst, t, dict((b, v) for v, b in inc))
        if op == 'br':
            t = p.type()
            if t[0] == 'meta':
                return ('br', None, p.next())
            c = p.value(t)
            p.expect(',')
            p.type()
            a = p.next()
            p.expect(',')
            p.type()
            return ('cbr', None, c, a, p.next())
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            d = p.next()
            p.expect('[')
            cs = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.type()
                cs.append((cv[1], p.next()))
            return ('switch', None, t, v, d, cs)
        if op == 'ret':
            t = p.type()
            return ('ret', None, t, None if t[0] == 'v' else p.value(t))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            return ('extractvalue', dst, t, v, ix)
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            e = p.value(et)
            ix = []
            while p.accept(','):
                ix.append(int(p.next()))
            return ('insertvalue', dst, t, v, et, e, ix)
        if op in ('extractelement', 'insertelement'):
            t = p.type()
            v = p.value(t)
            p.expect(',')
            if op == 'extractelement':
                it = p.type()
                return (op, dst, t, v, p.value(it))
            et = p.type()
            e = p.value(et)
            p.expect(',')
            it = p.type()
            return (op, dst, t, v, e, p.value(it))
        if op == 'freeze':
            t = p.type()
            return ('freeze', dst, t, p.value(t))
        raise ValueError('instruction ' + s)

    # layout
    def res(self, t):
        while t[0] == 'n':
            t = self.types[t[1]]
        return t

    def align(self, t):
        t = self.res(t)
        if t[0] == 'i':
            return max(1, min(16, 1 << ((t[1] + 7) // 8 - 1).bit_length())) if t[1] > 8 else 1
        if t[0] == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if t[0] in ('p', 'fn'):
            return 8
        if t[0] == 'a':
            return self.align(t[2])
        if t[0] == 'x':
            return self.size(t)
        if t[0] == 's':
            return 1 if t[2] else max([1] + [self.align(x) for x in t[1]])
        raise ValueError(t)

    def size(self, t):
        t = self.res(t)
        if t[0] == 'i':
            a = (t[1] + 7) // 8
            return 1 << (a - 1).bit_length() if a > 1 else 1
        if t[0] == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if t[0] in ('p', 'fn'):
            return 8
        if t[0] in ('a', 'x'):
            return t[1] * self.size(t[2])
        if t[0] == 's':
            return self.layout(t)[1]
        raise ValueError(t)

    def layout(self, t):
        key = repr(t)
        if key not in self._size:
            off, o = [], 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                off.append(o)
                o += self.size(x)
            a = self.align(t)
            self._size[key] = (off, (o + a - 1) // a * a)
        return self._size[key]
