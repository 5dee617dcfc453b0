"""Adds symbolic shadows to textual LLVM IR.

Every integer/double SSA value gets a shadow (i32 node number, 0 = concrete). Arithmetic, comparisons, conversions, selects,
loads, stores, calls and returns propagate shadows through the runtime (rt.cpp); conditional branches report (node, taken).
What cannot carry a shadow (pointers, addresses, switches, arguments of uninstrumented functions) forks on the value."""
import re
import sys

SCALAR = re.compile(r'^(i1|i8|i16|i32|i64|double|float)$')
NAME = r'%(?:[-a-zA-Z$._0-9]+|"[^"]*")'
GNAME = r'@(?:[-a-zA-Z$._0-9]+|"[^"]*")'

OPS = {n: i + 1 for i, n in enumerate('''add sub mul sdiv udiv srem urem and or xor shl lshr ashr
fadd fsub fmul fdiv frem fneg
eq ne slt sle sgt sge ult ule ugt uge
oeq one olt ole ogt oge ueq une fult fule fugt fuge ord uno
select trunc zext sext sitofp uitofp fptosi fptoui fpext fptrunc
smax smin umax umin abs fabs floor ceil ftrunc round rint sqrt fminnum fmaxnum input inputf bitcast'''.split())}
FCMP = dict(oeq='oeq', one='one', olt='olt', ole='ole', ogt='ogt', oge='oge', ueq='ueq', une='une', ult='fult', ule='fule', ugt='fugt',
            uge='fuge', ord='ord', uno='uno')
BIN_I = 'add sub mul sdiv udiv srem urem and or xor shl lshr ashr'.split()
BIN_F = 'fadd fsub fmul fdiv frem'.split()
CAST = 'trunc zext sext sitofp uitofp fptosi fptoui fpext fptrunc'.split()
CALLOP = {'llvm.smax': 'smax', 'llvm.smin': 'smin', 'llvm.umax': 'umax', 'llvm.umin': 'umin', 'llvm.fabs.f64': 'fabs', 'llvm.floor.f64': 'floor',
          'llvm.ceil.f64': 'ceil', 'llvm.trunc.f64': 'ftrunc', 'llvm.round.f64': 'round', 'llvm.rint.f64': 'rint', 'llvm.nearbyint.f64': 'rint',
          'llvm.minnum.f64': 'fminnum', 'llvm.maxnum.f64': 'fmaxnum', 'llvm.sqrt.f64': 'sqrt',
          'fmod': 'frem', 'fabs': 'fabs', 'floor': 'floor', 'ceil': 'ceil', 'trunc': 'ftrunc', 'round': 'round', 'rint': 'rint', 'nearbyint': 'rint',
          'fmin': 'fminnum', 'fmax': 'fmaxnum', 'sqrt': 'sqrt'}
# external functions replaced by wrappers of the runtime that understand shadows
WRAP = {'_PyArg_ParseTuple_SizeT', '_PyArg_ParseTupleAndKeywords_SizeT', 'PyArg_ParseTuple', 'PyArg_ParseTupleAndKeywords',
        'PyLong_AsLong', 'PyLong_AsLongLong', 'PyLong_FromLong', 'PyLong_FromLongLong', 'PyFloat_AsDouble', 'PyFloat_FromDouble',
        '_Py_BuildValue_SizeT', 'Py_BuildValue', 'PyLong_FromSsize_t', 'PyLong_AsSsize_t'}
RET_SHADOW = {'PyLong_AsLong', 'PyLong_AsLongLong', 'PyFloat_AsDouble', 'PyLong_AsSsize_t'}
IGNORE_ARGS = {'PyUnicode_FromFormat', 'PyErr_Format', 'PyOS_double_to_string'}
ATTRS = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly writeonly readnone returned nofree nest swiftself immarg
tail notail musttail fastcc ccc coldcc nsw nuw exact fast nnan ninf nsz arcp contract afn reassoc inbounds volatile nneg disjoint samesign'''.split())


def split_top(s):
    out, d, cur, q = [], 0, '', False
    for ch in s:
        if ch == '"':
            q = not q
        if not q:
            if ch in '([{<':
                d += 1
            elif ch in ')]}>':
                d -= 1
            elif ch == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def take_type(s):
    """(type, rest) of a string that starts with a type."""
    s = s.lstrip()
    if s[0] in '{[<':
        d = 0
        for i, ch in enumerate(s):
            if ch in '{[<':
                d += 1
            elif ch in '}]>':
                d -= 1
                if d == 0:
                    return s[:i + 1], s[i + 1:].lstrip()
    m = re.match(r'(%"[^"]*"|[^\s,()]+)', s)
    return m.group(1), s[m.end():].lstrip()


def strip_attrs(s):
    """Removes leading parameter / fast-math attributes."""
    while True:
        s = s.lstrip()
        m = re.match(r'(align \d+|dereferenceable(_or_null)?\(\d+\)|(sret|byval|elementtype|range|memory|captures|nofpclass|initializes|inalloca|preallocated)\()', s)
        if m:
            if s[m.end() - 1] == '(' and not m.group(0).startswith('deref'):
                d = 0
                for i in range(m.end() - 1, len(s)):
                    if s[i] == '(':
                        d += 1
                    elif s[i] == ')':
                        d -= 1
                        if d == 0:
                            break
                s = s[i + 1:]
            else:
                s = s[m.end():]
            continue
        m = re.match(r'([a-z_]+)\b', s)
        if m and m.group(1) in ATTRS:
            s = s[m.end():]
            continue
        m = re.match(r'"[^"]*"(="[^"]*")?\s', s)
        if m:
            s = s[m.end():]
            continue
        return s


def paren(s, i):
    """index after the parenthesis that opens at s[i]"""
    d, q = 0, False
    for j in range(i, len(s)):
        if s[j] == '"':
            q = not q
        if q:
            continue
        if s[j] == '(':
            d += 1
        elif s[j] == ')':
            d -= 1
            if d == 0:
                return j + 1
    raise ValueError(s)


class Call:
    """A parsed call/invoke."""

    def __init__(self, line):
        m = re.search(r'\b(call|invoke)\b', line)
        self.kind = m.group(1)
        rest = strip_attrs(line[m.end():])
        rest = re.sub(r'^cc\s*\d+\s+', '', rest)
        self.ret, rest = take_type(rest)
        rest = rest.lstrip()
        if rest.startswith('('):           # function type (varargs)
            rest = rest[paren(rest, 0):].lstrip()
        m = re.match(f'({NAME}|{GNAME})', rest)
        if not m:
            self.callee = None
            return
        self.callee = m.group(1)
        rest = rest[m.end():]
        i = rest.index('(')
        j = paren(rest, i)
        self.args = []
        for a in split_top(rest[i + 1:j - 1]):
            if a == '...':
                continue
            t, v = take_type(a)
            if t == 'metadata':
                self.args.append((t, v))
                continue
            self.args.append((t, strip_attrs(v)))
        self.fn = self.callee[1:].strip('"') if self.callee.startswith('@') else None


class Func:
    def __init__(self, mod, header, body):
        self.mod, self.header, self.body = mod, header, body
        self.sh = {}          # ssa name -> shadow operand
        self.agg = {}         # aggregate ssa name -> {index: shadow operand}
        self.types = {}
        self.n = 0
        self.out = []

    def tmp(self):
        self.n += 1
        return f'%shx.{self.n}'

    def shname(self, name):
        return '%shv.' + re.sub(r'[^a-zA-Z0-9._]', '_', name[1:]) if not name.startswith('%"') else f'%"shv.{name[2:-1]}"'

    def s(self, v):
        return self.sh.get(v, '0') if v.startswith('%') else '0'

    def emit(self, x):
        self.out.append('  ' + x)

    def to64(self, t, v):
        if t == 'i64':
            return v
        if not v.startswith('%'):
            if t.startswith('i') and re.match(r'^-?\d+$', v):
                return v
            if v in ('true', 'false'):
                return '1' if v == 'true' else '0'
            if v in ('undef', 'poison', 'null', 'zeroinitializer', 'none'):
                return '0'
        r = self.tmp()
        if t == 'i1':
            self.emit(f'{r} = zext i1 {v} to i64')
        elif t.startswith('i'):
            self.emit(f'{r} = sext {t} {v} to i64')
        elif t == 'double':
            self.emit(f'{r} = bitcast double {v} to i64')
        elif t == 'float':
            r2 = self.tmp()
            self.emit(f'{r2} = fpext float {v} to double')
            self.emit(f'{r} = bitcast double {r2} to i64')
        return r

    def width(self, t):
        return {'double': 64, 'float': 32}.get(t) or int(t[1:])

    def conc(self, t, v):
        """fork on the value of an operand"""
        s = self.s(v)
        if s != '0' and SCALAR.match(t):
            self.emit(f'call void @rt_concretize(i32 {s}, i64 {self.to64(t, v)})')

    def op(self, dest, name, rt, operands):
        """dest = op(operands) with result type rt; operands: (type, value)"""
        shs = [self.s(v) for _, v in operands]
        if all(x == '0' for x in shs):
            return
        ops = []
        for (t, v), s in zip(operands, shs):
            ops.append(f'i32 {s}, i64 {self.to64(t, v)}')
        while len(ops) < 3:
            ops.append('i32 0, i64 0')
        w = self.width(rt) | (256 if rt in ('double', 'float') else 0)
        w0 = self.width(operands[-1][0])
        self.emit(f'{self.sh[dest]} = call i32 @rt_op(i32 {OPS[name]}, i32 {w}, i32 {w0}, {", ".join(ops)}, i64 {self.to64(rt, dest)})')

    # -- first pass: which values have a shadow
    def scan(self):
        insts = join_lines(self.body)
        # values that can be symbolic: results of loads, calls, arguments; closed under operations
        cand = {}
        self.argl = []
        h = self.header
        i = h.index('(', h.index('@') if '@"' not in h else h.index('"', h.index('@"') + 2))
        for k, a in enumerate(split_top(h[i + 1:paren(h, i) - 1])):
            if a == '...':
                continue
            t, v = take_type(a)
            m = re.search(f'({NAME})\\s*$', v)
            name = m.group(1) if m else None
            self.argl.append((k, t, name))
            if name and SCALAR.match(t):
                cand[name] = t
        deps = {}
        self.kinds = []
        for ln in insts:
            m = re.match(rf'\s+({NAME}) = (.*)$', ln, re.S)
            if not m:
                continue
            d, rest = m.group(1), m.group(2)
            op = re.match(r'[a-z]+', rest).group(0)
            if op in ('tail', 'musttail', 'notail'):
                op = 'call'
            t = None
            ds = []
            if op == 'load':
                r = strip_attrs(re.sub(r'^load( atomic)?', '', rest))
                t, _ = take_type(r)
                if 'load atomic' in rest:
                    t = None
                if t and SCALAR.match(t):
                    cand[d] = t
                continue
            if op in ('call', 'invoke'):
                c = Call(rest)
                if c.callee is None or (c.fn and c.fn.startswith('llvm.') and not self.mod.callop(c.fn)):
                    continue
                if SCALAR.match(c.ret):
                    if c.fn and self.mod.callop(c.fn):
                        ds = [v for _, v in c.args]
                        deps[d] = (c.ret, ds)
                    elif c.fn is None or c.fn in self.mod.defined or c.fn in RET_SHADOW or c.fn in self.mod.maybe:
                        cand[d] = c.ret
                elif c.ret.startswith('{') and (c.fn is None or c.fn in self.mod.defined or c.fn in self.mod.maybe):
                    self.agg[d] = 'call'
                continue
            if op in BIN_I + BIN_F:
                r = strip_attrs(rest[len(op):])
                t, r = take_type(r)
                deps[d] = (t, split_top(r)[:2])
            elif op == 'fneg' or op == 'freeze':
                r = strip_attrs(rest[len(op):])
                t, r = take_type(r)
                deps[d] = (t, [r.split(',')[0].strip()])
            elif op in ('icmp', 'fcmp'):
                r = strip_attrs(rest[len(op):])
                p, r = r.split(None, 1)
                t, r = take_type(r)
                if SCALAR.match(t):
                    deps[d] = ('i1', split_top(r)[:2])
            elif op == 'select':
                ops = split_top(strip_attrs(rest[6:]))
                c = take_type(ops[0])[1]
                t, a = take_type(ops[1])
                b = take_type(ops[2])[1]
                deps[d] = (t, [c, a, b])
            elif op in CAST or op == 'bitcast':
                mm = re.match(r'(.*) to (\S+)', strip_attrs(rest[len(op):]))
                st, v = take_type(mm.group(1))
                if SCALAR.match(st):
                    deps[d] = (mm.group(2).rstrip(','), [v])
            elif op == 'phi':
                t, r = take_type(strip_attrs(rest[3:]))
                if SCALAR.match(t):
                    deps[d] = (t, [x for x in re.findall(rf'\[ ?([^,\]]+),', r)])
            elif op == 'extractvalue':
                r = rest[len(op):].lstrip()
                at, r = take_type(r)
                parts = split_top(r)
                deps[d] = ('agg', [parts[0]])
                self.types[d] = elem_type(at, parts[1:])
            elif op == 'insertvalue':
                parts = split_top(rest[len(op):])
                self.agg[d] = 'ins'
        changed = True
        live = dict(cand)
        while changed:
            changed = False
            for d, (t, ds) in deps.items():
                if d in live:
                    continue
                if t == 'agg':
                    t = self.types[d]
                    if t and SCALAR.match(t) and ds[0] in self.agg:
                        live[d] = t
                        changed = True
                    continue
                if SCALAR.match(t) and any(x.strip() in live for x in ds):
                    live[d] = t
                    changed = True
        for d in live:
            self.sh[d] = self.shname(d)
            self.types[d] = live[d]
        return insts

    def run(self):
        insts = self.scan()
        mod = self.mod
        self.out = []
        # labels: rename of predecessor blocks split after invokes
        cur = None
        first_label = None
        # split per block
        blocks = []
        cur = ['', []]
        nargs = len(self.argl)
        for ln in insts:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                blocks.append(cur)
                cur = [m.group(1), [ln]]
            else:
                cur[1].append(ln)
        blocks.append(cur)
        if not blocks[0][0]:
            # the entry block's implicit number: number of unnamed arguments
            unn = [a for _, _, a in self.argl if a is None or re.match(r'%\d+$', a)]
            blocks[0][0] = str(len(unn)) if not blocks[0][1] or True else ''
        self.split = {}      # (pred label, succ label) -> new label
        for lab, lns in blocks:
            for ln in lns:
                m = re.match(rf'\s+(?:({NAME}) = )?invoke\b', ln)
                if m:
                    d = m.group(1)
                    mm = re.search(rf'to label ({NAME}) unwind label ({NAME})', ln)
                    if d and (d in self.sh or self.agg.get(d) == 'call'):
                        self.split[(lab, mm.group(1)[1:])] = f'ivk.{len(self.split)}'
        for bi, (lab, lns) in enumerate(blocks):
            self.pending_phis = []
            self.in_phis = True
            if bi == 0 and not any(l.endswith(':') or re.match(r'^\S+:', l) for l in lns[:1]):
                self.prologue()
            k0 = 0
            if lns and re.match(r'^\S+:', lns[0]):
                self.out.append(lns[0])
                k0 = 1
                if bi == 0:
                    self.prologue()
            tail = []
            started = False
            for ln in lns[k0:]:
                isphi = re.match(rf'\s+{NAME} = phi ', ln)
                if not isphi and not started:
                    started = True
                    for p in self.pending_phis:
                        self.emit(p)
                    self.pending_phis = []
                if isphi:
                    self.phi(ln, lab)
                    continue
                self.inst(ln, lab)
        return [self.header] + self.out + ['}']

    def prologue(self):
        if any(name in self.sh for _, _, name in self.argl if name):
            self.emit(f'call void @rt_enter(ptr {self.fname()})')
            for k, t, name in self.argl:
                if name in self.sh:
                    self.emit(f'{self.sh[name]} = call i32 @rt_getarg(i32 {k}, i64 {self.to64(t, name)})')

    def fname(self):
        return re.search(GNAME, self.header).group(0)

    def fixlab(self, s, lab):
        # s: text with '[ v, %pred ]' lists of block lab
        def f(m):
            pred = m.group(2)[1:]
            key = (pred.strip('"') if False else pred, lab)
            if key in self.split:
                return f'[ {m.group(1)}, %{self.split[key]} ]'
            return m.group(0)
        return re.sub(rf'\[ (.+?), ({NAME}) \]', f, s)

    def phi(self, ln, lab):
        m = re.match(rf'(\s+({NAME}) = phi )(.*)$', ln, re.S)
        d = m.group(2)
        body = self.fixlab(m.group(3), lab)
        self.out.append(m.group(1) + body)
        if d in self.sh:
            t, r = take_type(strip_attrs(body))
            pairs = re.findall(rf'\[ (.+?), ({NAME}) \]', r)
            self.pending_phis.append(f'{self.sh[d]} = phi i32 ' + ', '.join(f'[ {self.s(v)}, {b} ]' for v, b in pairs))

    def inst(self, ln, lab):
        m = re.match(rf'\s+(?:({NAME}) = )?(.*)$', ln, re.S)
        d, rest = m.group(1), m.group(2)
        op = re.match(r'[a-z_]*', rest).group(0)
        if op in ('tail', 'musttail', 'notail'):
            if op == 'musttail':
                self.out.append(ln)
                return
            ln = re.sub(r'\b(tail|notail) call\b', 'call', ln, count=1)
            rest = re.sub(r'^(tail|notail) call\b', 'call', rest)
            op = 'call'
        if op in ('call', 'invoke'):
            return self.call(ln, d, rest, op, lab)
        if op == 'br':
            mm = re.match(r'br i1 ([^,]+), ', rest)
            if mm and self.s(mm.group(1)) != '0':
                self.emit(f'call void @rt_branch(i32 {self.s(mm.group(1))}, i64 {self.to64("i1", mm.group(1))})')
            self.out.append(ln)
            return
        if op == 'switch':
            t, r = take_type(rest[6:])
            v = r.split(',')[0].strip()
            self.conc(t, v)
            self.out.append(ln)
            return
        if op == 'ret':
            r = rest[3:].strip()
            if r != 'void':
                t, v = take_type(r)
                v = v.split(',')[0].strip() if not t.startswith('{') else v.strip()
                if SCALAR.match(t):
                    if True:
                        self.emit(f'call void @rt_setret(ptr {self.fname()}, i32 0, i32 {self.s(v)})')
                elif v in self.agg and isinstance(self.agg[v], dict):
                    for i, s in self.agg[v].items():
                        if s != '0':
                            self.emit(f'call void @rt_setret(ptr {self.fname()}, i32 {i}, i32 {s})')
            self.out.append(ln)
            return
        if op == 'load':
            self.out.append(ln)
            if d in self.sh:
                r = strip_attrs(re.sub(r'^load( atomic)?', '', rest))
                t, r = take_type(r.lstrip(', '))
                p = strip_attrs(split_top(r.lstrip(', '))[0][3:])
                w = self.width(t) if t != 'i1' else 8
                self.emit(f'{self.sh[d]} = call i32 @rt_load(ptr {p}, i32 {max(1, w // 8)}, i64 {self.to64(t, d)})')
            else:
                r = strip_attrs(re.sub(r'^load( atomic)?', '', rest))
                t, r = take_type(r.lstrip(', '))
                p = strip_attrs(split_top(r.lstrip(', '))[0][3:])
                p = p.split()[0]
                if p.startswith('%'):
                    self.out.insert(-1, f'  call void @rt_chk(ptr {p})')
            return
        if op == 'store':
            self.out.append(ln)
            r = strip_attrs(re.sub(r'^store( atomic)?', '', rest))
            parts = split_top(r)
            t, v = take_type(parts[0])
            p = strip_attrs(parts[1][3:])
            if SCALAR.match(t):
                w = max(8, self.width(t)) // 8
                if v.startswith('%') and self.s(v) != '0':
                    self.emit(f'call void @rt_store(ptr {p}, i32 {w}, i32 {self.s(v)}, i64 {self.to64(t, v)})')
                else:
                    self.emit(f'call void @rt_clear(ptr {p}, i64 {w})')
            elif t == 'ptr':
                self.emit(f'call void @rt_clear(ptr {p}, i64 8)')
            return
        if op == 'getelementptr':
            for a in split_top(strip_attrs(rest[len(op):]))[1:]:
                t, v = take_type(a)
                self.conc(t, v)
            self.out.append(ln)
            return
        if op == 'inttoptr':
            mm = re.match(r'inttoptr (\S+) (\S+) to', rest)
            if mm:
                self.conc(mm.group(1), mm.group(2))
            self.out.append(ln)
            return
        if op == 'select':
            ops = split_top(strip_attrs(rest[6:]))
            ct, c = take_type(ops[0])
            t, a = take_type(ops[1])
            b = take_type(ops[2])[1]
            if d not in self.sh:
                if ct == 'i1' and self.s(c) != '0':
                    self.emit(f'call void @rt_branch(i32 {self.s(c)}, i64 {self.to64("i1", c)})')
                self.out.append(ln)
                return
            self.out.append(ln)
            self.op(d, 'select', t, [(ct, c), (t, a), (t, b)])
            return
        if op == 'insertvalue':
            self.out.append(ln)
            parts = split_top(rest[len(op):])
            t, base = take_type(parts[0])
            et, v = take_type(parts[1])
            prev = self.agg.get(base)
            cur = dict(prev) if isinstance(prev, dict) else {}
            if len(parts) == 3 and SCALAR.match(et):
                cur[int(parts[2])] = self.s(v)
            self.agg[d] = cur
            return
        if op == 'extractvalue':
            self.out.append(ln)
            if d in self.sh:
                t, r = take_type(rest[len(op):])
                parts = split_top(r)
                ag = self.agg.get(parts[0])
                s = ag.get(int(parts[1]), '0') if isinstance(ag, dict) and len(parts) == 2 else '0'
                self.emit(f'{self.sh[d]} = add i32 {s}, 0')
            return
        self.out.append(ln)
        if d is None or d not in self.sh:
            return
        if op in BIN_I + BIN_F:
            t, r = take_type(strip_attrs(rest[len(op):]))
            a, b = split_top(r)[:2]
            self.op(d, op, t, [(t, a), (t, b)])
        elif op == 'fneg':
            t, r = take_type(strip_attrs(rest[len(op):]))
            self.op(d, op, t, [(t, r.split(',')[0].strip())])
        elif op == 'freeze':
            t, r = take_type(rest[len(op):])
            self.emit(f'{self.sh[d]} = add i32 {self.s(r.split(",")[0].strip())}, 0')
        elif op in ('icmp', 'fcmp'):
            r = strip_attrs(rest[len(op):])
            p, r = r.split(None, 1)
            t, r = take_type(r)
            a, b = split_top(r)[:2]
            self.op(d, FCMP[p] if op == 'fcmp' else p, 'i1', [(t, a), (t, b)])
        elif op in CAST or op == 'bitcast':
            mm = re.match(r'(.*) to (\S+)', strip_attrs(rest[len(op):]))
            st, v = take_type(mm.group(1))
            dt = mm.group(2).rstrip(',')
            if op == 'bitcast':
                self.emit(f'{self.sh[d]} = add i32 {self.s(v)}, 0')
            else:
                self.op(d, op, dt, [(st, v)])
        else:
            raise ValueError('no shadow rule: ' + ln)

    def call(self, ln, d, rest, op, lab):
        c = Call(rest)
        mod = self.mod
        if c.callee is None:      # inline asm
            self.out.append(ln)
            return
        fn = c.fn
        if fn and fn.startswith('llvm.') and not mod.callop(fn):
            if fn.startswith('llvm.memcpy') or fn.startswith('llvm.memmove'):
                for t, v in c.args[2:3]:
                    self.conc(t, v)
                self.out.append(ln)
                self.emit(f'call void @rt_memcpy(ptr {c.args[0][1]}, ptr {c.args[1][1]}, i64 {c.args[2][1]})')
            elif fn.startswith('llvm.memset'):
                self.out.append(ln)
                self.emit(f'call void @rt_clear(ptr {c.args[0][1]}, i64 {c.args[2][1]})')
            elif fn.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.experimental', 'llvm.dbg', 'llvm.trap', 'llvm.eh', 'llvm.expect')):
                self.out.append(ln)
                if d in self.sh:
                    self.emit(f'{self.sh[d]} = add i32 0, 0')
            else:
                for t, v in c.args:
                    self.conc(t, v)
                self.out.append(ln)
                if d in self.sh:
                    self.emit(f'{self.sh[d]} = add i32 0, 0')
            return
        cop = mod.callop(fn) if fn else None
        if cop and fn not in mod.defined:
            args = c.args[:1] if cop == 'abs' else c.args
            if op == 'invoke':
                for t, v in args:
                    self.conc(t, v)
                self.out.append(ln)
                return
            self.out.append(ln)
            if d in self.sh:
                self.op(d, cop, c.ret, [(t, v) for t, v in args])
            return
        internal = fn is None or fn in mod.defined or fn in mod.maybe
        wrap = fn in WRAP or (fn and fn.startswith('MPI_'))
        if fn == 'free':
            self.emit(f'call void @rt_free(ptr {c.args[0][1]})')
        if fn in ('_Znwm', '_Znam'):
            ln = ln.replace('@' + fn + '(', '@rt_new(', 1)
            self.out.append(ln)
            return
        if fn in ('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
            self.emit(f'call void @rt_del(ptr {c.args[0][1]})')
            if op == 'invoke':
                self.out.append('  br label ' + re.search(rf'to label ({NAME}) unwind', ln).group(1))
            return
        if internal or wrap:
            sh = [(i, self.s(v)) for i, (t, v) in enumerate(c.args) if SCALAR.match(t) and v.startswith('%') and self.s(v) != '0']
            if fn is None or sh or internal or wrap:
                self.emit(f'call void @rt_call(ptr {c.callee if not wrap else "@rt_" + fn})')
            for i, s in sh:
                self.emit(f'call void @rt_setarg(i32 {i}, i32 {s})')
        elif fn not in IGNORE_ARGS:
            for t, v in c.args:
                self.conc(t, v)
        if wrap:
            ln = re.sub(re.escape('@' + fn) + r'\(', '@rt_' + fn + '(', ln, count=1)
            mod.wrapped.add(fn)
        self.out.append(ln)
        want = (d in self.sh) if d else False
        aggw = d is not None and self.agg.get(d) == 'call'
        if not (want or aggw):
            return
        callee = c.callee if not wrap else '@rt_' + fn
        lines = []
        if want:
            if internal or fn in RET_SHADOW:
                lines.append(f'{self.sh[d]} = call i32 @rt_getret(ptr {callee}, i32 0)')
            else:
                lines.append(f'{self.sh[d]} = add i32 0, 0')
        if aggw:
            ag = {}
            for i, et in enumerate(split_top(c.ret.strip()[1:-1])):
                if SCALAR.match(et.strip()):
                    nm = self.tmp()
                    lines.append(f'{nm} = call i32 @rt_getret(ptr {callee}, i32 {i})')
                    ag[i] = nm
            self.agg[d] = ag
        if op == 'call':
            for x in lines:
                self.emit(x)
        else:
            mm = re.search(rf'to label ({NAME}) unwind', ln)
            new = self.split[(lab, mm.group(1)[1:])]
            self.out[-1] = ln[:mm.start(1)] + '%' + new + ln[mm.end(1):]
            self.out.append(f'{new}:')
            for x in lines:
                self.emit(x)
            self.emit(f'br label {mm.group(1)}')


def elem_type(at, idx):
    for i in idx:
        if not at.startswith('{'):
            return None
        parts = split_top(at.strip()[1:-1])
        at = parts[int(i)].strip()
    return at


def join_lines(body):
    """One string per instruction (invoke, switch and landingpad span lines)."""
    out = []
    i = 0
    while i < len(body):
        ln = body[i]
        s = ln.strip()
        if not s or s.startswith(';'):
            i += 1
            continue
        ln = re.sub(r'\s+; preds = .*$', '', ln)
        if re.match(rf'(?:{NAME} = )?invoke\b', s):
            while 'unwind label' not in ln:
                i += 1
                ln += ' ' + body[i].strip()
        elif s.startswith('switch ') and '[' in s and ']' not in s.split('[', 1)[1]:
            while True:
                i += 1
                ln += '\n' + body[i]
                if body[i].strip().startswith(']'):
                    break
        elif re.match(rf'{NAME} = landingpad', s):
            while i + 1 < len(body) and re.match(r'\s+(cleanup|catch|filter)\b', body[i + 1]):
                i += 1
                ln += '\n' + body[i]
        out.append(re.sub(r', !(tbaa|prof|noundef|range|llvm\.loop|noalias|alias\.scope|nonnull|align|srcloc|invariant\.\w+|heapallocsite|dereferenceable\w*|nosanitize|tbaa\.struct|unpredictable|invariant\.group) !?[\w{}]*', '', ln))
        i += 1
    return out


def aliases(text):
    return set(m.strip('"') for m in re.findall(r'^@("[^"]*"|[-a-zA-Z$._0-9]+) = [^=\n]*\balias\b', text, re.M))


class Module:
    def __init__(self, text, all_defined):
        self.text = text
        self.maybe = all_defined       # functions defined in other instrumented modules
        self.wrapped = set()
        self.defined = set(m.strip('"') for m in re.findall(r'^define[^@]*@("[^"]*"|[-a-zA-Z$._0-9]+)', text, re.M))

        self.defined |= aliases(text)

    def callop(self, fn):
        if fn in self.maybe or fn in self.defined:
            return None
        if fn in CALLOP:
            return CALLOP[fn]
        for p in ('llvm.smax', 'llvm.smin', 'llvm.umax', 'llvm.umin'):
            if fn.startswith(p + '.'):
                return CALLOP[p]
        if fn.startswith('llvm.abs.'):
            return 'abs'
        return None

    def run(self):
        out = []
        lines = self.text.split('\n')
        i = 0
        decl = {}
        nfun = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('define '):
                header = ln
                body = []
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                header = re.sub(r'\bnorecurse\b', '', header)
                out += Func(self, header, body).run()
                nfun += 1
            else:
                if ln.startswith('declare '):
                    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', ln)
                    decl[m.group(1).strip('"')] = ln
                if ln.startswith('attributes #'):
                    # the runtime is called from everywhere: no function is pure any more
                    ln = re.sub(r'\b(memory\([^)]*\)|nosync|nofree|willreturn|mustprogress|norecurse|speculatable|nocallback)\s?', '', ln)
                out.append(ln)
            i += 1
        for fn in sorted(self.wrapped):
            d = decl[fn]
            out.append(re.sub(r'#\d+\s*$', '', d.replace('@' + fn + '(', '@rt_' + fn + '(')))
        out.append('''
declare i32 @rt_op(i32, i32, i32, i32, i64, i32, i64, i32, i64, i64)
declare void @rt_branch(i32, i64)
declare void @rt_concretize(i32, i64)
declare i32 @rt_load(ptr, i32, i64)
declare void @rt_store(ptr, i32, i32, i64)
declare void @rt_clear(ptr, i64)
declare void @rt_memcpy(ptr, ptr, i64)
declare void @rt_free(ptr)
declare ptr @rt_new(i64)
declare void @rt_del(ptr)
declare void @rt_chk(ptr)
declare void @rt_call(ptr)
declare void @rt_setarg(i32, i32)
declare void @rt_enter(ptr)
declare i32 @rt_getarg(i32, i64)
declare void @rt_setret(ptr, i32, i32)
declare i32 @rt_getret(ptr, i32)
''')
        self.nfun = nfun
        return '\n'.join(out)


def main(ins, outs):
    texts = [open(f).read() for f in ins]
    alld = set()
    for t in texts:
        alld |= set(m.strip('"') for m in re.findall(r'^define[^@]*@("[^"]*"|[-a-zA-Z$._0-9]+)', t, re.M)) | aliases(t)
    n = 0
    for t, o in zip(texts, outs):
        m = Module(t, alld)
        open(o, 'w').write(m.run())
        n += m.nfun
    return n


if __name__ == '__main__':
    k = (len(sys.argv) - 1) // 2
    print(main(sys.argv[1:1 + k], sys.argv[1 + k:]))
