"""Parser for the textual LLVM IR that clang produces from /repo's sources on every run."""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('kind', 'w', 'elem', 'n', 'fields', 'name')

    def __init__(self, kind, w=0, elem=None, n=0, fields=None, name=None):
        self.kind, self.w, self.elem, self.n, self.fields, self.name = kind, w, elem, n, fields, name

    def __repr__(self):
        return {'int': 'i%d' % self.w, 'ptr': 'ptr', 'void': 'void'}.get(self.kind, self.kind)


PTR = Ty('ptr', 64)
VOID = Ty('void')
_ints = {}


def INT(w):
    if w not in _ints:
        _ints[w] = Ty('int', w)
    return _ints[w]


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>![\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+(?:\.\d+e[+-]\d+)?)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[][(){}<>,=*:])
)''', re.X)


def tokenize(s):
    out, pos = [], 0
    s = s.rstrip()
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                break
            raise IRError('cannot tokenize: %r' % s[pos:pos + 60])
        out.append(m.group().strip())
        pos = m.end()
    return out


PARAM_ATTRS = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly', 'returned',
               'writeonly', 'immarg', 'readnone', 'inreg', 'nofree', 'captures', 'noreturn', 'nounwind'}


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() != x:
            raise IRError('expected %r got %r in %s' % (x, self.peek(), ' '.join(self.t)))
        self.i += 1

    def opt(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                raise IRError('addrspace')
            return PTR
        if x == 'void':
            return VOID
        if x in ('metadata', 'label'):
            return Ty(x)
        if x == '[':
            n = int(self.next())
            self.eat('x')
            e = self.type()
            self.eat(']')
            return Ty('array', elem=e, n=n)
        if x == '{':
            f = []
            while not self.opt('}'):
                f.append(self.type())
                self.opt(',')
            return Ty('struct', fields=f)
        if x.startswith('%'):
            return self.mod.struct(x)
        m = re.fullmatch(r'i(\d+)', x)
        if m:
            return INT(int(m.group(1)))
        raise IRError('type %r' % x)

    def attrs(self):
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.i += 1
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'allocsize', 'range', 'sret', 'byval',
                       'allocalign', 'memory', 'elementtype'):
                self.i += 1
                if self.peek() == '(':
                    d = 0
                    while True:
                        y = self.next()
                        d += (y == '(') - (y == ')')
                        if d == 0:
                            break
                else:
                    self.i += 1
            else:
                return

    def const_or_val(self, ty):
        """Operand of known type -> ('l',name) | ('g',name) | ('c',int) | ('null',) | ('undef',) | ('gep',...)"""
        x = self.next()
        if x.startswith('%'):
            return ('l', x)
        if x.startswith('@'):
            return ('g', x)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.eat('(')
            bty = self.type()
            self.eat(',')
            self.type()
            base = self.const_or_val(PTR)
            idx = []
            while self.opt(','):
                t = self.type()
                idx.append((t, self.const_or_val(t)))
            self.eat(')')
            return ('gep', bty, base, idx)
        if re.fullmatch(r'-?\d+', x):
            return ('c', int(x))
        if x.startswith('c"'):
            return ('bytes', unescape(x[2:-1]))
        if x == '[' or x == '{':
            self.i -= 1
            return self.aggregate(ty)
        raise IRError('operand %r in %s' % (x, ' '.join(self.t)[:200]))

    def aggregate(self, ty):
        o = self.next()
        close = {'[': ']', '{': '}'}[o]
        items = []
        while not self.opt(close):
            t = self.type()
            items.append((t, self.const_or_val(t)))
            self.opt(',')
        return ('agg', items)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


class Inst:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text', 'flags', 'loc')

    def __init__(self, op, dst=None, ty=None, a=None, text='', flags=()):
        self.op, self.dst, self.ty, self.a, self.text, self.flags = op, dst, ty, a, text, flags

    def __repr__(self):
        return self.text.strip()


class Func:
    def __init__(self, name, ret, params, mod, varargs=False):
        self.name, self.ret, self.params, self.mod, self.varargs = name, ret, params, mod, varargs
        self.blocks = {}
        self.order = []
        self.internal = False

    def cfg(self):
        if hasattr(self, '_succ'):
            return
        self._succ = {}
        for b in self.order:
            t = self.blocks[b][-1]
            if t.op == 'br':
                s = [t.a[1], t.a[2]] if t.a[0] is not None else [t.a[1]]
            elif t.op == 'switch':
                s = [t.a[1]] + [x for _, x in t.a[2]]
            else:
                s = []
            self._succ[b] = list(dict.fromkeys(s))
        self._pred = {b: [] for b in self.order}
        for b in self.order:
            for s in self._succ[b]:
                self._pred[s].append(b)
        # dominators (iterative)
        entry = self.order[0]
        reach, st = set(), [entry]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st += self._succ[b]
        dom = {b: set(reach) for b in reach}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b not in reach or b == entry:
                    continue
                ps = [dom[p] for p in self._pred[b] if p in reach]
                n = set.intersection(*ps) | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self.loops = {}
        for b in reach:
            for s in self._succ[b]:
                if s in dom[b]:  # back edge b->s
                    body = self.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack += [p for p in self._pred[x] if p in reach]
        # irreducibility check: retreating edge whose target does not dominate
        order = []
        seen = set()

        def dfs(b):
            stack = [(b, iter(self._succ[b]))]
            seen.add(b)
            onst = {b}
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s in onst and s not in dom[x]:
                        raise IRError('irreducible control flow in ' + self.name)
                    if s not in seen:
                        seen.add(s)
                        onst.add(s)
                        stack.append((s, iter(self._succ[s])))
                        break
                else:
                    stack.pop()
                    onst.discard(x)
        dfs(entry)


class Module:
    def __init__(self, text, path=''):
        self.path = path
        self.structs, self.globals, self.funcs, self.decls = {}, {}, {}, {}
        self.stored_globals = set()
        self.parse(text)

    def struct(self, name):
        if name not in self.structs:
            self.structs[name] = Ty('struct', name=name)
        return self.structs[name]

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                name, body = l.split(' = type ', 1)
                st = self.struct(name.strip())
                if body.strip() != 'opaque':
                    p = P(tokenize(body), self)
                    st.fields = p.type().fields
            elif l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self.parse_func(l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                f = self.parse_head(l)
                self.decls[f.name] = f
            i += 1

    def parse_global(self, l):
        p = P(tokenize(strip_meta(l)), self)
        name = p.next()
        p.eat('=')
        g = dict(name=name, const=False, ext=False, internal=False)
        while True:
            x = p.next()
            if x == 'constant':
                g['const'] = True
                break
            if x == 'global':
                break
            if x == 'external':
                g['ext'] = True
            if x in ('internal', 'private'):
                g['internal'] = True
            if x is None:
                raise IRError('global ' + l)
        g['ty'] = p.type()
        g['init'] = None if g['ext'] else p.const_or_val(g['ty'])
        self.globals[name] = g

    def parse_head(self, l):
        s = strip_meta(l.rstrip(' {'))
        toks = tokenize(s)
        k = next(n for n, t in enumerate(toks) if t.startswith('@') and toks[n + 1] == '(')
        p = P(toks[:k], self)
        p.next()
        internal = False
        while p.i < k:
            save = p.i
            x = p.peek()
            if x == 'internal':
                internal = True
            if x in ('dso_local', 'internal', 'hidden', 'weak', 'linkonce_odr', 'local_unnamed_addr', 'external',
                     'private', 'available_externally', 'linkonce') or x in PARAM_ATTRS:
                p.next()
                continue
            p.attrs()
            if p.i == save:
                break
        ret = p.type()
        p = P(toks, self)
        p.i = k
        name = p.next()[1:]
        p.eat('(')
        params, va = [], False
        while not p.opt(')'):
            if p.opt('...'):
                va = True
                continue
            t = p.type()
            p.attrs()
            n = None
            if p.peek() and p.peek().startswith('%'):
                n = p.next()
            params.append((t, n))
            p.opt(',')
        f = Func(name, ret, params, self, va)
        f.internal = internal
        return f

    def parse_func(self, head, body):
        f = self.parse_head(head)
        # unnamed first block gets the implicit number; clang keeps names so this is 'entry'
        cur = None
        k = 0
        while k < len(body):
            l = body[k]
            if not l.strip() or l.lstrip().startswith(';'):
                k += 1
                continue
            m = re.match(r'^([-\w.$]+|"[^"]*"):', l)
            if m:
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                f.order.append(cur)
                k += 1
                continue
            if cur is None:
                cur = '%' + str(len([1 for _ in f.params]))
                f.blocks[cur] = []
                f.order.append(cur)
            if l.strip().startswith('switch') and ']' not in l:
                while ']' not in body[k]:
                    k += 1
                    l += ' ' + body[k].strip()
            ins = self.parse_inst(l)
            f.blocks[cur].append(ins)
            k += 1
        self.funcs[f.name] = f

    def parse_inst(self, l):
        text = l
        l = strip_meta(l)
        if 'asm sideeffect' in l:
            m = re.match(r'\s*(?:(%\S+) = )?call (\w+) asm sideeffect "([^"]*)", "([^"]*)"', l)
            if not m or m.group(3) != '':
                raise IRError('inline assembly with instructions: ' + l)
            return Inst('nop', text=text)
        p = P(tokenize(l), self)
        dst = None
        if p.peek().startswith('%') and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        I = lambda ty, a, flags=(): Inst(op, dst, ty, a, text, flags)
        if op == 'alloca':
            t = p.type()
            n = ('c', 1)
            if p.opt(','):
                if p.peek() != 'align':
                    nt = p.type()
                    n = p.const_or_val(nt)
            return I(t, (n,))
        if op == 'load':
            p.opt('volatile')
            t = p.type()
            p.eat(',')
            p.type()
            return I(t, (p.const_or_val(PTR),))
        if op == 'store':
            p.opt('volatile')
            t = p.type()
            v = p.const_or_val(t)
            p.eat(',')
            p.type()
            d = p.const_or_val(PTR)
            if d[0] == 'g':
                self.stored_globals.add(d[1])
            return I(t, (v, d))
        if op == 'getelementptr':
            inb = False
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                inb |= p.next() == 'inbounds'
            t = p.type()
            p.eat(',')
            p.type()
            b = p.const_or_val(PTR)
            idx = []
            while p.opt(','):
                it = p.type()
                idx.append((it, p.const_or_val(it)))
            return I(t, (b, idx), ('inbounds',) if inb else ())
        if op == 'phi':
            t = p.type()
            inc = []
            while True:
                p.eat('[')
                v = p.const_or_val(t)
                p.eat(',')
                b = p.next()
                p.eat(']')
                inc.append((v, b))
                if not p.opt(','):
                    break
            return I(t, inc)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return I(None, (None, p.next(), None))
            p.type()
            c = p.const_or_val(INT(1))
            p.eat(',')
            p.eat('label')
            a = p.next()
            p.eat(',')
            p.eat('label')
            return I(None, (c, a, p.next()))
        if op == 'switch':
            t = p.type()
            v = p.const_or_val(t)
            p.eat(',')
            p.eat('label')
            d = p.next()
            p.eat('[')
            cs = []
            while not p.opt(']'):
                p.type()
                c = p.const_or_val(t)
                p.eat(',')
                p.eat('label')
                cs.append((c[1], p.next()))
            return I(t, (v, d, cs))
        if op == 'ret':
            t = p.type()
            return I(t, (None if t is VOID else p.const_or_val(t),))
        if op == 'unreachable':
            return I(None, ())
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'call':
            save = p.i
            while p.peek() in PARAM_ATTRS or p.peek() in ('fastcc', 'ccc'):
                p.next()
            p.attrs()
            t = p.type()
            if p.peek() == '(':  # function type of a varargs callee
                d = 0
                while True:
                    y = p.next()
                    d += (y == '(') - (y == ')')
                    if d == 0:
                        break
            callee = p.next()
            p.eat('(')
            args = []
            while not p.opt(')'):
                at = p.type()
                if at.kind == 'metadata':
                    raise IRError('metadata argument')
                p.attrs()
                args.append((at, p.const_or_val(at)))
                p.opt(',')
            return Inst('call', dst, t, (callee, args), text)
        if op == 'icmp':
            pred = p.next()
            t = p.type()
            a = p.const_or_val(t)
            p.eat(',')
            b = p.const_or_val(t)
            return I(t, (pred, a, b))
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            fl = []
            while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
                fl.append(p.next())
            t = p.type()
            a = p.const_or_val(t)
            p.eat(',')
            b = p.const_or_val(t)
            return I(t, (a, b), tuple(fl))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            a = p.const_or_val(t)
            p.eat('to')
            t2 = p.type()
            return Inst(op, dst, t2, (t, a), text)
        if op == 'select':
            p.type()
            c = p.const_or_val(INT(1))
            p.eat(',')
            t = p.type()
            a = p.const_or_val(t)
            p.eat(',')
            p.type()
            b = p.const_or_val(t)
            return I(t, (c, a, b))
        if op == 'freeze':
            t = p.type()
            return I(t, (p.const_or_val(t),))
        return Inst('unsupported', dst, None, (op,), text)


def strip_meta(l):
    """Drop trailing comments, attribute groups and metadata attachments."""
    out, q = [], False
    for i, ch in enumerate(l):
        if ch == '"':
            q = not q
        if ch == ';' and not q:
            break
        out.append(ch)
    l = ''.join(out)
    l = re.sub(r',?\s*!\w+(\.\w+)* !\d+', '', l)
    l = re.sub(r'\s#\d+', '', l)
    l = re.sub(r'\bcomdat\b(\([^)]*\))?|\bunnamed_addr\b|\blocal_unnamed_addr\b', '', l)
    return l


# ---------------------------------------------------------------- layout (x86-64 SysV)
def sizeof(t):
    if t.kind == 'int':
        return max(1, (t.w + 7) // 8)
    if t.kind == 'ptr':
        return 8
    if t.kind == 'array':
        return t.n * sizeof(t.elem)
    if t.kind == 'struct':
        if t.fields is None:
            raise IRError('opaque struct')
        o = 0
        for f in t.fields:
            a = alignof(f)
            o = (o + a - 1) // a * a + sizeof(f)
        a = alignof(t)
        return (o + a - 1) // a * a
    raise IRError('sizeof %s' % t)


def alignof(t):
    if t.kind == 'int':
        return min(8, sizeof(t))
    if t.kind == 'ptr':
        return 8
    if t.kind == 'array':
        return alignof(t.elem)
    if t.kind == 'struct':
        return max([alignof(f) for f in t.fields] or [1])
    raise IRError('alignof')


def field_offset(t, k):
    o = 0
    for i, f in enumerate(t.fields):
        a = alignof(f)
        o = (o + a - 1) // a * a
        if i == k:
            return o
        o += sizeof(f)
    raise IRError('field')
