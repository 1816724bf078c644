"""Reader for textual LLVM IR (clang 18).  Functions are parsed lazily."""
import re, struct, subprocess, sys

TOK = re.compile(r'''\s*(?:
 (?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
|(?P<loc>%"(?:[^"])*"|%[-\w.$]+)
|(?P<glb>@"(?:[^"])*"|@[-\w.$]+)
|(?P<meta>!"(?:[^"])*"|![-\w.]+|!\{)
|(?P<attr>\#\d+)
|(?P<hex>0x[KMLHR]?[0-9A-Fa-f]+)
|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
|(?P<word>[A-Za-z_][\w.]*)
|(?P<dots>\.\.\.)
|(?P<q>"(?:[^"])*")
|(?P<p>[][(){}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise SyntaxError('cannot tokenize: %r' % s[pos:pos + 60])
        out.append(m.group(0).strip())
        pos = m.end()
    return out

class GlobalRef:
    __slots__ = ('name', 'off')
    def __init__(self, name, off=0):
        self.name = name; self.off = off
    def __repr__(self):
        return '@%s+%d' % (self.name, self.off)

class ConstAgg:
    """aggregate constant: list of (offset, type, const)"""
    __slots__ = ('items', 'size')
    def __init__(self, items, size):
        self.items = items; self.size = size

class ZeroInit: pass
class UndefC: pass
ZEROINIT = ZeroInit()
UNDEFC = UndefC()
PTR = ('p',)
VOID = ('v',)

ATTRS = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly writeonly readnone returned nest immarg
swiftself swifterror noreturn nofree nosync willreturn mustprogress noinline optnone nounwind local_unnamed_addr unnamed_addr
dso_local internal linkonce_odr linkonce weak weak_odr private external available_externally constant global hidden protected default
thread_local comdat inbounds nuw nsw exact fast nnan ninf nsz arcp contract afn reassoc disjoint nneg tail musttail notail allocsize
captures dead_on_unwind writable initializes dllimport dllexport appending common'''.split())

class Func:
    __slots__ = ('name', 'rett', 'params', 'blocks', 'order', 'lines', 'mod', 'parsed', 'header', 'ipdom', 'dname', 'vararg', 'sub')

class Block:
    __slots__ = ('name', 'ins', 'phis', 'succ')

class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.meta = {}
        self._metaraw = {}
        self._scopefile = {}
        self.ctors = []
        self._tc = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Func()
                f.header = l
                f.lines = (i + 1, j)
                f.mod = self
                f.parsed = False
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                f.name = m.group(1).strip('"')
                ms = re.search(r'!dbg !(\d+)', l)
                f.sub = int(ms.group(1)) if ms else None
                self.funcs[f.name] = f
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
                self.decls[m.group(1).strip('"')] = l
            elif l.startswith('%'):
                m = re.match(r'(%"[^"]*"|%[-\w.$]+) = type (.*)$', l)
                self.types[m.group(1)] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', l)
                self.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith('!'):
                m = re.match(r'!(\d+) = (.*)$', l)
                if m:
                    self._metaraw[int(m.group(1))] = m.group(2)
            i += 1
        self.text = lines
        self._demangle()

    # ------------------------------------------------------------ names
    def _demangle(self):
        names = [n for n in list(self.funcs) + list(self.decls)]
        inp = '\n'.join(names)
        out = subprocess.run(['c++filt'], input=inp, capture_output=True, text=True).stdout.split('\n')
        self.dem = dict(zip(names, out))
        gn = list(self.globals)
        out = subprocess.run(['c++filt'], input='\n'.join(gn), capture_output=True, text=True).stdout.split('\n')
        self.demg = dict(zip(gn, out))

    # ------------------------------------------------------------ debug locations
    def loc(self, dbg):
        if dbg is None:
            return '?'
        r = self._metaraw.get(dbg)
        if r is None:
            return '?'
        m = re.search(r'line: (\d+)', r)
        line = m.group(1) if m else '0'
        sc = re.search(r'scope: !(\d+)', r)
        return '%s:%s' % (self.scope_file(int(sc.group(1))) if sc else '?', line)

    def scope_file(self, s):
        if s in self._scopefile:
            return self._scopefile[s]
        r = self._metaraw.get(s, '')
        m = re.search(r'file: !(\d+)', r)
        f = '?'
        if m:
            fr = self._metaraw.get(int(m.group(1)), '')
            mm = re.search(r'filename: "([^"]*)"', fr)
            if mm:
                f = mm.group(1)
        self._scopefile[s] = f
        return f

    def func_loc(self, f):
        if f.sub is None:
            return '?'
        r = self._metaraw.get(f.sub, '')
        m = re.search(r'line: (\d+)', r)
        return '%s:%s' % (self.scope_file(f.sub), m.group(1) if m else '?')

    # ------------------------------------------------------------ types
    def parse_type(self, t, i):
        w = t[i]
        if w == 'ptr':
            i += 1; T = PTR
            if i < len(t) and t[i] == 'addrspace':
                i += 4
        elif w == 'void':
            T = VOID; i += 1
        elif w == 'double':
            T = ('f', 64); i += 1
        elif w == 'float':
            T = ('f', 32); i += 1
        elif w == 'x86_fp80':
            T = ('f', 80); i += 1
        elif w == 'half':
            T = ('f', 16); i += 1
        elif w in ('label', 'metadata', 'token'):
            T = (w,); i += 1
        elif re.fullmatch(r'i\d+', w):
            T = ('i', int(w[1:])); i += 1
        elif w == '[':
            n = int(t[i + 1]); assert t[i + 2] == 'x'
            E, i = self.parse_type(t, i + 3)
            assert t[i] == ']'
            T = ('a', n, E); i += 1
        elif w == '<' and t[i + 1] == '{':
            fs = []
            i += 2
            while t[i] != '}':
                E, i = self.parse_type(t, i)
                fs.append(E)
                if t[i] == ',': i += 1
            i += 2
            T = ('s', tuple(fs), True)
        elif w == '<':
            n = int(t[i + 1]); E, i = self.parse_type(t, i + 3)
            T = ('vec', n, E); i += 1
        elif w == '{':
            fs = []
            i += 1
            while t[i] != '}':
                E, i = self.parse_type(t, i)
                fs.append(E)
                if t[i] == ',': i += 1
            i += 1
            T = ('s', tuple(fs), False)
        elif w.startswith('%'):
            T = self.named_type(w); i += 1
        elif w == 'opaque':
            T = ('opaque',); i += 1
        else:
            raise SyntaxError('type? %s' % t[i:i + 6])
        while i < len(t) and t[i] == '(':   # function type in call
            d = 0
            while True:
                if t[i] == '(': d += 1
                elif t[i] == ')':
                    d -= 1
                    if d == 0: break
                i += 1
            i += 1
        return T, i

    def named_type(self, w):
        T = self._tc.get(w)
        if T is None:
            toks = tokenize(self.types[w])
            T, _ = self.parse_type(toks, 0)
            self._tc[w] = T
        return T

    def align(self, T):
        k = T[0]
        if k == 'i':
            n = (T[1] + 7) // 8
            a = 1
            while a < n: a *= 2
            return min(a, 16)
        if k == 'f':
            return {64: 8, 32: 4, 80: 16, 16: 2}[T[1]]
        if k == 'p':
            return 8
        if k == 'a':
            return self.align(T[2])
        if k == 's':
            return 1 if T[2] else max([self.align(x) for x in T[1]] or [1])
        if k == 'vec':
            return self.size(T)
        return 1

    _szc = {}
    def size(self, T):
        k = T[0]
        if k == 'i':
            n = (T[1] + 7) // 8
            a = self.align(T)
            return (n + a - 1) // a * a
        if k == 'f':
            return {64: 8, 32: 4, 80: 16, 16: 2}[T[1]]
        if k == 'p':
            return 8
        if k == 'a':
            return T[1] * self.size(T[2])
        if k == 's':
            s = self._szc.get(T)
            if s is None:
                o = 0
                for x in T[1]:
                    if not T[2]:
                        a = self.align(x)
                        o = (o + a - 1) // a * a
                    o += self.size(x)
                if not T[2]:
                    a = self.align(T)
                    o = (o + a - 1) // a * a
                s = self._szc[T] = o
            return s
        if k == 'vec':
            return T[1] * self.size(T[2])
        if k == 'opaque':
            return 0
        raise SyntaxError('size of %r' % (T,))

    def field_off(self, T, n):
        o = 0
        for idx, x in enumerate(T[1]):
            if not T[2]:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if idx == n:
                return o
            o += self.size(x)
        raise IndexError

    # ------------------------------------------------------------ constants / operands
    def parse_val(self, T, t, i):
        """operand of type T at token i -> (operand, i)"""
        w = t[i]
        if w[0] == '%':
            return w, i + 1
        if w[0] == '@':
            return GlobalRef(w[1:].strip('"')), i + 1
        k = T[0]
        if w == 'null':
            return None, i + 1
        if w in ('undef', 'poison'):
            return UNDEFC, i + 1
        if w == 'zeroinitializer':
            return ZEROINIT, i + 1
        if w == 'true':
            return 1, i + 1
        if w == 'false':
            return 0, i + 1
        if k == 'i' and re.fullmatch(r'-?\d+', w):
            return int(w) & ((1 << T[1]) - 1), i + 1
        if k == 'f':
            if w.startswith('0x'):
                if w[2] in 'KMLHR':
                    return float('nan'), i + 1
                return struct.unpack('>d', struct.pack('>Q', int(w, 16)))[0], i + 1
            return float(w), i + 1
        if w == 'getelementptr':
            i += 1
            while t[i] in ATTRS: i += 1
            assert t[i] == '('
            BT, i = self.parse_type(t, i + 1)
            assert t[i] == ','; i += 1
            ops = []
            while True:
                OT, i = self.parse_type(t, i)
                while t[i] in ATTRS or t[i] == 'inrange': i += 1
                v, i = self.parse_val(OT, t, i)
                ops.append((OT, v))
                if t[i] == ')':
                    i += 1; break
                i += 1
            base = ops[0][1]
            off = self.gep_const(BT, ops[1:])
            if base is None:
                return off, i
            return GlobalRef(base.name, base.off + off), i
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'trunc'):
            i += 2
            OT, i = self.parse_type(t, i)
            v, i = self.parse_val(OT, t, i)
            assert t[i] == 'to'
            RT, i = self.parse_type(t, i + 1)
            return v, i + 1
        if w in ('sub', 'add', 'icmp', 'select', 'sdiv'):
            # constant expression we do not need
            d = 0
            while True:
                i += 1
                if t[i] == '(': d += 1
                if t[i] == ')':
                    d -= 1
                    if d == 0: break
            return UNDEFC, i + 1
        if w.startswith('c"'):
            bs = []
            s = w[2:-1]
            j = 0
            while j < len(s):
                if s[j] == '\\':
                    bs.append(int(s[j + 1:j + 3], 16)); j += 3
                else:
                    bs.append(ord(s[j])); j += 1
            return ConstAgg([(n, ('i', 8), b) for n, b in enumerate(bs)], len(bs)), i + 1
        if w == '[' and k == 'a':
            items = []
            i += 1
            es = self.size(T[2])
            n = 0
            while t[i] != ']':
                ET, i = self.parse_type(t, i)
                v, i = self.parse_val(ET, t, i)
                items.append((n * es, ET, v)); n += 1
                if t[i] == ',': i += 1
            return ConstAgg(items, self.size(T)), i + 1
        if (w == '{' or w == '<') and k == 's':
            items = []
            i += 2 if w == '<' else 1
            n = 0
            while t[i] != '}':
                ET, i = self.parse_type(t, i)
                v, i = self.parse_val(ET, t, i)
                items.append((self.field_off(T, n), ET, v)); n += 1
                if t[i] == ',': i += 1
            return ConstAgg(items, self.size(T)), i + (2 if w == '<' else 1)
        if k == 'metadata':
            # skip a metadata operand
            if w == '!{':
                while t[i] != '}': i += 1
                return None, i + 1
            if w.startswith('!'):
                i += 1
                if i < len(t) and t[i] == '(':
                    d = 0
                    while True:
                        if t[i] == '(': d += 1
                        if t[i] == ')':
                            d -= 1
                            if d == 0: break
                        i += 1
                    i += 1
                return None, i
            OT, i = self.parse_type(t, i)
            v, i = self.parse_val(OT, t, i)
            return None, i
        raise SyntaxError('value? %r of %r' % (t[i:i + 8], T))

    def gep_const(self, BT, ops):
        off = 0
        T = BT
        for n, (OT, v) in enumerate(ops):
            if n == 0:
                off += sgn(v, OT[1]) * self.size(BT)
            else:
                if T[0] == 's':
                    off += self.field_off(T, v)
                    T = T[1][v]
                else:
                    off += sgn(v, OT[1]) * self.size(T[2])
                    T = T[2]
        return off

    # ------------------------------------------------------------ functions
    def find(self, dem):
        """mangled name of the function with this demangled name"""
        return next((n for n in self.funcs if self.dem.get(n, n) == dem), None)

    def get(self, name):
        f = self.funcs.get(name)
        if f is None:
            return None
        if not f.parsed:
            self.parse_func(f)
        return f

    def skip_attrs(self, t, i):
        while i < len(t):
            w = t[i]
            if w in ATTRS:
                i += 1
            elif w in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'range', 'nofpclass', 'elementtype', 'inalloca', 'preallocated', 'memory', 'alignstack'):
                i += 1
                if t[i] == '(':
                    d = 0
                    while True:
                        if t[i] == '(': d += 1
                        if t[i] == ')':
                            d -= 1
                            if d == 0: break
                        i += 1
                    i += 1
                elif w == 'align':
                    i += 1
            elif w[0] == '"':
                i += 1
                if i < len(t) and t[i] == '=':
                    i += 2
            else:
                break
        return i

    def parse_func(self, f):
        h = tokenize(f.header)
        i = 1
        while True:
            j = self.skip_attrs(h, i)
            if j == i and h[i] not in ('cc', 'fastcc', 'coldcc'):
                break
            i = j
        # byval in return not needed
        f.rett, i = self.parse_type(h, i)
        while not h[i].startswith('@'):
            i += 1
        i += 2
        f.params = []
        f.vararg = False
        n = 0
        while h[i] != ')':
            if h[i] == '...':
                f.vararg = True; i += 1; continue
            T, i = self.parse_type(h, i)
            byval = None
            st = i
            i = self.skip_attrs(h, i)
            if 'byval' in h[st:i]:
                k = h.index('byval', st)
                byval, _ = self.parse_type(h, k + 2)
            if h[i].startswith('%'):
                nm = h[i]; i += 1
            else:
                nm = '%' + str(n)
            f.params.append((nm, T, byval))
            n += 1
            if h[i] == ',': i += 1
        lines = self.text[f.lines[0]:f.lines[1]]
        f.blocks = {}
        f.order = []
        cur = None
        k = 0
        while k < len(lines):
            l = lines[k]
            k += 1
            if not l.strip():
                continue
            if l[0] != ' ' and not l.startswith(';'):
                m = re.match(r'("[^"]*"|[-\w.$]+):', l)
                cur = Block(); cur.name = '%' + m.group(1).strip('"') if not m.group(1).startswith('"') else '%' + m.group(1)
                cur.ins = []; cur.phis = []; cur.succ = []
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block(); cur.name = '%' + str(len(f.params)); cur.ins = []; cur.phis = []; cur.succ = []
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            # switch spans lines
            if ' switch ' in l or l.strip().startswith('switch '):
                while ']' not in l:
                    l += ' ' + lines[k]; k += 1
            self.parse_ins(f, cur, l)
        f.parsed = True
        self.compute_ipdom(f)

    def parse_ins(self, f, b, l):
        dbg = None
        m = re.search(r', !dbg !(\d+)', l)
        if m:
            dbg = int(m.group(1))
        # strip trailing metadata
        l2 = re.sub(r'(, !\w[\w.]* !\d+)+\s*$', '', l)
        l2 = re.sub(r'\s*;.*$', '', l2) if '; ' in l2 and 'c"' not in l2 else l2
        if 'call void @llvm.dbg.' in l2 or 'call void @llvm.lifetime' in l2 or '@llvm.experimental.noalias' in l2:
            return
        t = tokenize(l2)
        dst = None
        i = 0
        if len(t) > 1 and t[1] == '=':
            dst = t[0]; i = 2
        op = t[i]; i += 1
        A = b.ins.append
        if op in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'udiv', 'sdiv', 'urem', 'srem',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = []
            while t[i] in ATTRS:
                fl.append(t[i]); i += 1
            T, i = self.parse_type(t, i)
            x, i = self.parse_val(T, t, i)
            y, i = self.parse_val(T, t, i + 1)
            A((op, dst, T, x, y, dbg, tuple(fl)))
        elif op in ('icmp', 'fcmp'):
            while t[i] in ATTRS: i += 1
            pr = t[i]; i += 1
            T, i = self.parse_type(t, i)
            x, i = self.parse_val(T, t, i)
            y, i = self.parse_val(T, t, i + 1)
            A((op, dst, pr, T, x, y, dbg))
        elif op == 'load':
            while t[i] in ('volatile', 'atomic'): i += 1
            T, i = self.parse_type(t, i)
            p, i = self.parse_val(*self.tv(t, i + 1))
            A((op, dst, T, p, dbg))
        elif op == 'store':
            while t[i] in ('volatile', 'atomic'): i += 1
            T, i = self.parse_type(t, i)
            v, i = self.parse_val(T, t, i)
            p, i = self.parse_val(*self.tv(t, i + 1))
            A((op, None, T, v, p, dbg))
        elif op == 'atomicrmw':
            if t[i] == 'volatile': i += 1
            bop = t[i]; i += 1
            p, i = self.parse_val(*self.tv(t, i))
            if t[i] == ',': i += 1
            T, i = self.parse_type(t, i)
            v, i = self.parse_val(T, t, i)
            A((op, dst, T, bop, p, dbg, v))
        elif op == 'cmpxchg':
            while t[i] in ('volatile', 'weak'): i += 1
            p, i = self.parse_val(*self.tv(t, i))
            if t[i] == ',': i += 1
            T, i = self.parse_type(t, i)
            c, i = self.parse_val(T, t, i)
            if t[i] == ',': i += 1
            T, i = self.parse_type(t, i)
            v, i = self.parse_val(T, t, i)
            A((op, dst, T, p, c, dbg, v))
        elif op == 'fence':
            pass
        elif op == 'getelementptr':
            while t[i] in ATTRS: i += 1
            BT, i = self.parse_type(t, i)
            ops = []
            while i < len(t) and t[i] == ',':
                OT, i = self.parse_type(t, i + 1)
                v, i = self.parse_val(OT, t, i)
                ops.append((OT, v))
            base = ops[0][1]
            # compile to (const, [(reg, width, scale)])
            const = 0
            var = []
            T = BT
            badconst = False
            for n, (OT, v) in enumerate(ops[1:]):
                bound = None
                if n == 0:
                    sc = self.size(BT)
                elif T[0] == 's':
                    const += self.field_off(T, v); T = T[1][v]; continue
                else:
                    bound = T[1]
                    T = T[2]; sc = self.size(T)
                if type(v) is str:
                    var.append((v, OT[1], sc, bound))
                else:
                    k = sgn(v, OT[1])
                    const += k * sc
                    if bound is not None and not (0 <= k < bound):
                        badconst = True
            A((op, dst, base, const, var, dbg, badconst))
        elif op == 'alloca':
            while t[i] in ATTRS or t[i] == 'inalloca': i += 1
            T, i = self.parse_type(t, i)
            cnt = 1
            if i < len(t) and t[i] == ',' and t[i + 1].startswith('i'):
                OT, i = self.parse_type(t, i + 1)
                cnt, i = self.parse_val(OT, t, i)
            A((op, dst, self.size(T), cnt, dbg))
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
            while t[i] in ATTRS: i += 1
            T, i = self.parse_type(t, i)
            x, i = self.parse_val(T, t, i)
            T2, i = self.parse_type(t, i + 1)
            A((op, dst, T, x, T2, dbg))
        elif op in ('fneg', 'freeze'):
            while t[i] in ATTRS: i += 1
            T, i = self.parse_type(t, i)
            x, i = self.parse_val(T, t, i)
            A((op, dst, T, x, dbg))
        elif op == 'select':
            while t[i] in ATTRS: i += 1
            CT, i = self.parse_type(t, i)
            c, i = self.parse_val(CT, t, i)
            T, i = self.parse_type(t, i + 1)
            x, i = self.parse_val(T, t, i)
            T, i = self.parse_type(t, i + 1)
            y, i = self.parse_val(T, t, i)
            A((op, dst, T, c, x, y, dbg))
        elif op == 'phi':
            while t[i] in ATTRS: i += 1
            T, i = self.parse_type(t, i)
            inc = {}
            while True:
                assert t[i] == '['
                v, i = self.parse_val(T, t, i + 1)
                inc[t[i + 1]] = v
                i += 3
                if i < len(t) and t[i] == ',':
                    i += 1
                    continue
                break
            b.phis.append((dst, T, inc))
        elif op == 'br':
            if t[i] == 'label':
                A(('br', None, t[i + 1], dbg)); b.succ = [t[i + 1]]
            else:
                c, i = self.parse_val(('i', 1), t, i + 1)
                A(('cbr', None, c, t[i + 2], t[i + 5], dbg)); b.succ = [t[i + 2], t[i + 5]]
        elif op == 'switch':
            T, i = self.parse_type(t, i)
            v, i = self.parse_val(T, t, i)
            d = t[i + 2]
            i += 4
            cases = []
            while t[i] != ']':
                CT, i = self.parse_type(t, i)
                cv, i = self.parse_val(CT, t, i)
                cases.append((cv, t[i + 2])); i += 3
            A(('switch', None, T, v, d, cases, dbg)); b.succ = [d] + [c[1] for c in cases]
        elif op == 'ret':
            T, i = self.parse_type(t, i)
            v = None
            if T != VOID:
                v, i = self.parse_val(T, t, i)
            A(('ret', None, v, dbg))
        elif op == 'unreachable':
            A(('unreachable', None, dbg))
        elif op in ('call', 'tail', 'musttail', 'notail', 'invoke'):
            if op in ('tail', 'musttail', 'notail'):
                i += 1
            while True:
                j = self.skip_attrs(t, i)
                if j == i and t[i] not in ('fastcc', 'ccc', 'coldcc'):
                    break
                i = j if j != i else i + 1
            RT, i = self.parse_type(t, i)
            if t[i] == 'asm':
                A(('call', dst, RT, 'asm', [], dbg)); return
            callee, i = self.parse_val(PTR, t, i)
            assert t[i] == '(', t[i:]
            i += 1
            args = []
            while t[i] != ')':
                T, i = self.parse_type(t, i)
                st = i
                i = self.skip_attrs(t, i)
                v, i = self.parse_val(T, t, i)
                byval = None
                if 'byval' in t[st:i]:
                    k = t.index('byval', st)
                    byval, _ = self.parse_type(t, k + 2)
                args.append((T, v, byval))
                if t[i] == ',': i += 1
            A(('call', dst, RT, callee, args, dbg))
        elif op == 'extractvalue':
            T, i = self.parse_type(t, i)
            x, i = self.parse_val(T, t, i)
            A((op, dst, T, x, [int(w) for w in t[i:] if w != ','], dbg))
        elif op == 'insertvalue':
            T, i = self.parse_type(t, i)
            x, i = self.parse_val(T, t, i)
            T2, i = self.parse_type(t, i + 1)
            y, i = self.parse_val(T2, t, i)
            A((op, dst, T, x, y, [int(w) for w in t[i:] if w != ','], dbg))
        else:
            A(('unknown', dst, op, l2.strip(), dbg))

    def tv(self, t, i):
        T, i = self.parse_type(t, i)
        return T, t, i

    def compute_ipdom(self, f):
        # immediate postdominators on the sub-CFG that can reach a return
        order = f.order
        succ = {b: f.blocks[b].succ for b in order}
        exits = [b for b in order if f.blocks[b].ins and f.blocks[b].ins[-1][0] == 'ret']
        pred = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                pred[s].append(b)
        live = set(exits)
        st = list(exits)
        while st:
            b = st.pop()
            for p in pred[b]:
                if p not in live:
                    live.add(p); st.append(p)
        # reverse postorder on reversed graph from virtual exit
        seen = set(); post = []
        def dfs(start):
            stack = [(start, iter(pred[start]))]
            seen.add(start)
            while stack:
                n, it = stack[-1]
                for p in it:
                    if p in live and p not in seen:
                        seen.add(p); stack.append((p, iter(pred[p]))); break
                else:
                    post.append(n); stack.pop()
        for e in exits:
            if e not in seen: dfs(e)
        rpo = list(reversed(post))
        idx = {b: n for n, b in enumerate(rpo)}
        EX = '<exit>'
        ip = {EX: EX}
        def inter(a, b):
            while a != b:
                if a == EX or b == EX:
                    return EX
                if idx[a] > idx[b]:
                    a = ip[a]
                else:
                    b = ip[b]
            return a
        ch = True
        while ch:
            ch = False
            for b in rpo:
                new = EX if b in exits else None
                for s in succ[b]:
                    if s in ip and s in live:
                        new = s if new is None else inter(new, s)
                if new is not None and ip.get(b) != new:
                    ip[b] = new; ch = True
        f.ipdom = ip

def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v

if __name__ == '__main__':
    import time
    t0 = time.time()
    m = Module(open(sys.argv[1]).read())
    print(len(m.funcs), 'functions', time.time() - t0)
    for n in m.funcs:
        try:
            m.get(n)
        except Exception as e:
            print('ERR', n, repr(e)); raise
    bad = set()
    for n in m.funcs:
        for b in m.funcs[n].blocks.values():
            for x in b.ins:
                if x[0] == 'unknown': bad.add(x[2])
    print('unknown ops', bad, time.time() - t0)
