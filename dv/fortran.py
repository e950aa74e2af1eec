"""Mechanical transcription of the free-form Fortran subroutines of a file into Python functions that the interpreter can execute.

What it keeps: every executable statement, in order, with its operands and literals. What it drops: kind parameters (REAL(DP) and COMPLEX
are both the mathematical number), storage order, and the f2py wrapper, whose documented convention is reproduced: extents that appear only
as dimensions are taken from the arrays, intent(out) arrays are allocated and returned. Anything outside the subset below is refused.
  subset: SUBROUTINE, declarations with intent and dimension(lo:hi), assignment (scalar, element, whole array), DO ... END DO,
  DO WHILE, scalar FUNCTION of scalars, IF/ELSEIF/ELSE/END IF, one-line IF, EXIT, CYCLE, CONTINUE, arithmetic, comparisons, .and. .or. .not., sin cos exp log sqrt abs min max.
"""
import ast
import re
import struct


class Refused(Exception):
    pass


def logical_lines(src):
    """(statement, line number) with comments removed and continued lines joined"""
    out, buf, start = [], '', None
    for no, line in enumerate(src.split('\n'), 1):
        line = line.split('!')[0].rstrip()
        if not line.strip():
            continue
        s = line.strip()
        if buf:
            s = s[1:] if s.startswith('&') else ' ' + s
        else:
            start = no
        if s.endswith('&'):
            buf += s[:-1]
            continue
        out.append(((buf + s).strip().lower(), start))
        buf = ''
    if buf:
        raise Refused('file ends within a statement')
    return out


def split_top(s, sep=','):
    out, depth, cur = [], 0, ''
    for c in s:
        depth += (c == '(') - (c == ')')
        if c == sep and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()]


FN = {'sin', 'cos', 'exp', 'log', 'sqrt', 'abs'}
NUM = re.compile(r'(?<![a-z0-9_.])(\d+\.\d*|\.\d+|\d+)(?:([ed])([+-]?\d+))?(?![a-z0-9_.]*\.(?:and|or|not|eq|ne|lt|le|gt|ge)\.)(?![a-z0-9_])')


class Sub:
    def __init__(self, name, args, no):
        self.name, self.args, self.no = name, args, no
        self.type, self.dims, self.intent = {}, {}, {}
        self.body = []
        self.result = None      # of a function
        self.functions = {}

    # -- expressions
    def expr(self, s):
        """-> Python ast"""
        t = s.replace('/=', '!=')
        for a, b in (('.and.', ' and '), ('.or.', ' or '), ('.not.', ' not '), ('.eq.', '=='), ('.ne.', '!='), ('.lt.', '<'), ('.le.', '<='), ('.gt.', '>'), ('.ge.', '>='), ('.true.', ' True '), ('.false.', ' False ')):
            t = t.replace(a, b)

        def lit(m):
            mant, d, ex = m.groups()
            if d is None and '.' not in mant:
                return mant
            v = float(mant + ('e' + ex if ex else ''))
            if d != 'd':
                v = struct.unpack('f', struct.pack('f', v))[0]      # a single precision literal
            return repr(v)
        t = NUM.sub(lit, t)
        try:
            e = ast.parse(' '.join(t.split()), mode='eval').body
        except SyntaxError:
            raise Refused('line %d: cannot read expression %r' % (self.no, s[:80]))
        return self.conv(e)[0]

    def conv(self, e):
        """-> (ast, is integer)"""
        if isinstance(e, ast.Constant):
            return e, isinstance(e.value, int) and not isinstance(e.value, bool)
        if isinstance(e, ast.Name):
            if e.id not in self.type:
                raise Refused('%s: undeclared %s' % (self.name, e.id))
            return ast.Name(self.py(e.id), ast.Load()), self.type[e.id] == 'integer'
        if isinstance(e, ast.UnaryOp):
            o, i = self.conv(e.operand)
            return ast.UnaryOp(e.op, o), i
        if isinstance(e, ast.BinOp):
            a, i = self.conv(e.left)
            b, j = self.conv(e.right)
            if isinstance(e.op, ast.Div) and i and j:
                raise Refused('%s: integer division' % self.name)
            if isinstance(e.op, ast.Pow) and i and j and not (isinstance(e.right, ast.Constant)):
                raise Refused('%s: integer power' % self.name)
            if not isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)):
                raise Refused('%s: operator' % self.name)
            return ast.BinOp(a, e.op, b), i and j
        if isinstance(e, ast.Compare):
            if len(e.ops) != 1:
                raise Refused('%s: chained comparison' % self.name)
            return ast.Compare(self.conv(e.left)[0], e.ops, [self.conv(e.comparators[0])[0]]), False
        if isinstance(e, ast.BoolOp):
            return ast.BoolOp(e.op, [self.conv(v)[0] for v in e.values]), False
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
            n = e.func.id
            if n in self.dims:
                if len(e.args) != len(self.dims[n]):
                    raise Refused('%s: %s has %d dimensions' % (self.name, n, len(self.dims[n])))
                ix = [self.index(self.conv(a), lo) for a, (lo, hi) in zip(e.args, self.dims[n])]
                return ast.Subscript(ast.Name(self.py(n), ast.Load()), ix[0] if len(ix) == 1 else ast.Tuple(ix, ast.Load()), ast.Load()), self.type[n] == 'integer'
            if n in self.functions:
                return ast.Call(ast.Name(n, ast.Load()), [self.conv(a)[0] for a in e.args], []), self.functions[n].rtype() == 'integer'
            if n in ('min', 'max') and n not in self.type:
                cs = [self.conv(a) for a in e.args]
                return ast.Call(ast.Name(n, ast.Load()), [c for c, _ in cs], []), all(i for _, i in cs)
            if n in FN and n not in self.type and len(e.args) == 1:
                return ast.Call(ast.Attribute(ast.Name('np', ast.Load()), n, ast.Load()), [self.conv(e.args[0])[0]], []), False
        raise Refused('%s: %s' % (self.name, ast.unparse(e)[:60]))

    def index(self, ci, lo):
        a, isint = ci
        if not isint:
            raise Refused('%s: subscript that is not an integer' % self.name)
        return a if lo == '0' else ast.BinOp(a, ast.Sub(), self.expr(lo))

    def py(self, n):
        return n + '_' if n in ('lambda', 'in', 'is', 'np', 'if', 'for', 'len', 'range') else n

    # -- declarations
    def declare(self, s, no):
        head, names = s.split('::', 1)
        parts = split_top(head)
        kind = re.match(r'(integer|real|complex|logical)\b', parts[0])
        if not kind:
            raise Refused('line %d: declaration %r' % (no, s[:60]))
        intent, dim = None, None
        for p in parts[1:]:
            if re.fullmatch(r'intent\s*\(\s*(in|out|inout)\s*\)', p):
                intent = re.search(r'\((.*)\)', p).group(1).strip()
            elif re.fullmatch(r'dimension\s*\(.*\)', p):
                dim = p[p.index('(') + 1:-1]
            elif p != 'external':
                raise Refused('line %d: attribute %r' % (no, p))
        for n in split_top(names):
            m = re.fullmatch(r'([a-z]\w*)(?:\s*\((.*)\))?', n)
            if not m:
                raise Refused('line %d: declaration of %r' % (no, n))
            n, own = m.groups()
            self.type[n] = kind.group(1)
            self.intent[n] = intent
            d = own or dim
            if d:
                self.dims[n] = []
                for x in split_top(d):
                    lo, hi = x.split(':') if ':' in x else ('1', x)
                    self.dims[n].append((lo.strip(), hi.strip()))

    # -- the Python function
    def extent(self, lo, hi):
        m = re.fullmatch(r'([a-z]\w*)\s*-\s*1', hi)
        if lo == '0' and m:
            return m.group(1)
        if lo == '1' and re.fullmatch(r'[a-z]\w*', hi):
            return hi
        raise Refused('%s: extent %s:%s' % (self.name, lo, hi))

    def rtype(self):
        return self.type.get(self.result)

    def function(self):
        if self.result:
            if any(a not in self.type or a in self.dims for a in self.args) or self.result not in self.type or any(self.intent.get(a) not in (None, 'in') for a in self.args):
                raise Refused('%s: function that is not a scalar one of scalars' % self.name)
            body = self.block(self.body)[0] + ast.parse('def f():\n    return ' + self.py(self.result)).body[0].body
            f = ast.FunctionDef(self.name, ast.arguments([], [ast.arg(self.py(a)) for a in self.args], None, [], [], None, []), body, [], None, None)
            f.type_params = []
            return f
        ext = {}
        for a in self.args:
            if a not in self.type:
                raise Refused('%s: undeclared argument %s' % (self.name, a))
            for k, (lo, hi) in enumerate(self.dims.get(a, ())):
                n = self.extent(lo, hi)
                if self.intent[a] == 'in':
                    ext.setdefault(n, (a, k))
        given = [a for a in self.args if self.intent[a] == 'in' and a not in ext]
        outs = [a for a in self.args if self.intent[a] == 'out']
        if set(given) | set(outs) | set(ext) != set(self.args) or any(a not in self.dims for a in outs):
            raise Refused('%s: argument list' % self.name)
        pre = []
        for n, (a, k) in ext.items():
            pre.append('%s = np.asarray(%s).shape[%d]' % (n, self.py(a), k))
        for a in given:
            if a in self.dims:
                pre.append('%s = np.asarray(%s)' % (self.py(a), self.py(a)))
        for a in outs:
            pre.append('%s = np.zeros((%s,))' % (self.py(a), ', '.join(self.extent(*d) for d in self.dims[a])))
        body = ast.parse('\n'.join(pre)).body + self.block(self.body)[0] + ast.parse('def f():\n    return ' + ', '.join(map(self.py, outs))).body[0].body
        f = ast.FunctionDef(self.name, ast.arguments([], [ast.arg(self.py(a)) for a in given], None, [], [], None, []), body, [], None, None)
        f.type_params = []
        return f

    # -- statements
    def block(self, lines, stop=()):
        out, i = [], 0
        while i < len(lines):
            s, no = lines[i]
            self.no = no
            if any(re.match(p, s) for p in stop):
                break
            m = re.fullmatch(r'do\s+([a-z]\w*)\s*=\s*(.*)', s)
            if m:
                a = split_top(m.group(2))
                if len(a) == 3 and a[2].replace(' ', '') in ('1', '-1'):
                    down = a.pop(2).strip() != '1'
                else:
                    down = False
                if len(a) != 2:
                    raise Refused('line %d: stride' % no)
                body, k = self.block(lines[i + 1:], (r'end\s*do$',))
                i += 1 + k
                if i >= len(lines):
                    raise Refused('line %d: DO without END DO' % no)
                lo, hi = [self.expr(x) for x in a]
                n = a[1]
                if down:
                    rng = [lo, ast.BinOp(hi, ast.Sub(), ast.Constant(1)), ast.UnaryOp(ast.USub(), ast.Constant(1))]
                    out.append(ast.For(ast.Name(self.py(m.group(1)), ast.Store()), ast.Call(ast.Name('range', ast.Load()), rng, []), body or [ast.Pass()], []))
                    i += 1
                    continue
                mm = re.fullmatch(r'(.*\w)\s*-\s*(\d+)', n.strip())
                # upper limit is included
                hi = (self.expr(mm.group(1)) if mm.group(2) == '1' else ast.BinOp(self.expr(mm.group(1)), ast.Sub(), ast.Constant(int(mm.group(2)) - 1))) if mm else ast.BinOp(hi, ast.Add(), ast.Constant(1))
                out.append(ast.For(ast.Name(self.py(m.group(1)), ast.Store()), ast.Call(ast.Name('range', ast.Load()), [lo, hi], []), body or [ast.Pass()], []))
                i += 1
                continue
            m = re.match(r'do\s*while\s*\(', s)
            if m:
                cond, rest = self.paren(s[m.end() - 1:], no)
                test = self.expr(cond)
                body, k = self.block(lines[i + 1:], (r'end\s*do$',))
                i += 1 + k
                if i >= len(lines) or rest:
                    raise Refused('line %d: DO WHILE' % no)
                out.append(ast.While(test, body or [ast.Pass()], []))
                i += 1
                continue
            m = re.match(r'if\s*\(', s)
            if m:
                cond, rest = self.paren(s[m.end() - 1:], no)
                if rest == 'then':
                    node, k = self.ifblock(cond, lines[i + 1:], no)
                    out.append(node)
                    i += 1 + k
                else:
                    one, k = self.block([(rest, no)])
                    out.append(ast.If(self.expr(cond), one, []))
                    i += 1
                continue
            if s in ('exit', 'cycle', 'continue', 'return'):
                if s == 'return':
                    raise Refused('line %d: RETURN' % no)
                out.append({'exit': ast.Break, 'cycle': ast.Continue, 'continue': ast.Pass}[s]())
                i += 1
                continue
            m = re.match(r'([a-z]\w*)\s*(\(|=)', s)
            if m and m.group(1) in self.type:
                n = m.group(1)
                if m.group(2) == '(':
                    ix, rest = self.paren(s[m.end() - 1:], no)
                    if not rest.startswith('='):
                        raise Refused('line %d: %r' % (no, s[:60]))
                    t = self.conv(ast.parse('%s(%s)' % (n, ix), mode='eval').body)[0]
                    t.ctx = ast.Store()
                    out.append(ast.Assign([t], self.expr(rest[1:])))
                elif n in self.dims:
                    out.append(ast.Assign([ast.Subscript(ast.Name(self.py(n), ast.Load()), ast.Constant(Ellipsis), ast.Store())], self.expr(s[m.end():])))
                else:
                    v = self.conv_typed(n, s[m.end():], no)
                    out.append(ast.Assign([ast.Name(self.py(n), ast.Store())], v))
                i += 1
                continue
            raise Refused('line %d: statement %r' % (no, s[:60]))
        return out, i

    def conv_typed(self, n, s, no):
        e = self.expr(s)
        if self.type[n] == 'integer' and not self.conv(ast.parse(' '.join(s.split()), mode='eval').body)[1]:
            raise Refused('line %d: conversion to integer' % no)
        return e

    def ifblock(self, cond, lines, no):
        """-> If node, number of lines used including END IF"""
        stop = (r'else\s*if\b', r'else$', r'end\s*if$')
        body, k = self.block(lines, stop)
        if k >= len(lines):
            raise Refused('line %d: IF without END IF' % no)
        s, no2 = lines[k]
        test = self.expr(cond)
        if re.match(r'end\s*if$', s):
            return ast.If(test, body or [ast.Pass()], []), k + 1
        if s == 'else':
            other, k2 = self.block(lines[k + 1:], stop)
            if k + 1 + k2 >= len(lines) or not re.match(r'end\s*if$', lines[k + 1 + k2][0]):
                raise Refused('line %d: ELSE without END IF' % no2)
            return ast.If(test, body or [ast.Pass()], other), k + k2 + 2
        c, rest = self.paren(s[s.index('('):], no2)
        if rest != 'then':
            raise Refused('line %d: %r' % (no2, s[:60]))
        node, k2 = self.ifblock(c, lines[k + 1:], no2)
        return ast.If(test, body or [ast.Pass()], [node]), k + 1 + k2

    def paren(self, s, no):
        """s starts with '(': (inside, what follows)"""
        d = 0
        for i, c in enumerate(s):
            d += (c == '(') - (c == ')')
            if d == 0:
                return s[1:i], s[i + 1:].strip()
        raise Refused('line %d: parentheses' % no)


def subroutines(src):
    subs, cur, inmod = {}, None, False
    for s, no in logical_lines(src):
        m = re.fullmatch(r'subroutine\s+([a-z]\w*)\s*\((.*)\)', s)
        if m:
            if cur is not None:
                raise Refused('line %d: nested subroutine' % no)
            cur = Sub(m.group(1), split_top(m.group(2)), no)
            continue
        m = re.fullmatch(r'((?:(?:pure|elemental)\s+)*)(?:(real|integer|complex|logical)(?:\s*\(\s*(?:kind\s*=\s*)?\w+\s*\))?\s+)?((?:(?:pure|elemental)\s+)*)function\s+([a-z]\w*)\s*\((.*?)\)(?:\s*result\s*\(\s*(\w+)\s*\))?', s)
        if m and cur is None:
            cur = Sub(m.group(4), split_top(m.group(5)) if m.group(5).strip() else [], no)
            cur.result = m.group(6) or cur.name
            if m.group(2):
                cur.type[cur.result] = m.group(2)
            continue
        if re.match(r'end\s*(subroutine|function)\b', s) or s == 'end' and cur is not None:
            subs[cur.name] = cur
            cur = None
            continue
        if cur is None:
            if re.match(r'(end\s*)?module\b|implicit none|integer\s*,\s*parameter\s*::', s):
                continue
            raise Refused('line %d: %r outside a subroutine' % (no, s[:60]))
        if re.match(r'(use|implicit)\b', s):
            continue
        if '::' in s and not cur.body:
            cur.declare(s, no)
        else:
            cur.body.append((s, no))
    return subs


def transcribe(src):
    """Python source of all the subroutines"""
    subs = subroutines(src)
    fns = {n: x for n, x in subs.items() if x.result}
    for n, x in subs.items():
        x.functions = {k: v for k, v in fns.items() if k != n}
    m = ast.Module([ast.parse('import numpy as np').body[0]] + [x.function() for x in subs.values()], [])
    ast.fix_missing_locations(m)
    return ast.unparse(m)
