"""C29: input text is executed only if every construct in it is on the allow lists.

The checker is a visitor over the syntax tree.  Every visit method is verified for every class of the
syntax tree (all classes of the ast module of the running Python) with unknown identifiers and unknown
allow lists: it either raises SyntaxError, and does so exactly when the node is not allowed, or visits every
child of the node.  By induction over the tree an accepted script has no node that is not allowed.
"""
import ast
import builtins as pybuiltins
import textwrap
from speclib import *
from dv import nplib
from dv.interp import Abstract, Builtin, Cls, LList, Namespace, PDict, PSet, PyExc, Seq, Unsupported

suite = Suite('C29')
suite.num = ['num_io']
IO = 'geotecha.inputoutput.inputoutput.'
SC = IO + 'SyntaxChecker'
suite.assumptions = ['ast.parse returns the syntax tree of the text; ast.NodeVisitor.visit calls visit_<class of the node> where the checker has it and generic_visit otherwise',
                     'ast.NodeVisitor.generic_visit visits every child of the node, in the order of the fields',
                     'induction over the syntax tree: a tree is finite',
                     'values returned by allowed functions are outside the statement: a call of a computed value is not a call by name']
one, Z = num(1), num(0)
NODES = sorted(k for k, v in vars(ast).items() if isinstance(v, type) and issubclass(v, ast.AST))


class Ident(Abstract):
    """an unknown identifier"""

    def __init__(self, name):
        Abstract.__init__(self, Cls('str', [], {}, None))
        self.term = var(name)


class Names(Abstract):
    """an unknown collection of names"""

    def __init__(self, I, label, log):
        Abstract.__init__(self, Cls('collection of names', [], {}, None))
        self.label = label
        self.added = []

        def member(x):
            if not isinstance(x, Ident):
                raise Unsupported('a fixed name looked up in %s' % label)
            return bool(I.decide(self.has(x)))

        def put(x):
            log.append(('add', label, x))
        self.d['__contains__'] = Builtin(member)
        self.d['add'] = Builtin(put)

    def has(self, x):
        return app('in ' + self.label, x.term, sort='B')


def python(I, log):
    """the modules of Python the code under contract uses"""
    L = I.libs
    I.children_log = log
    if 'ast' in L:
        return

    def children(me, node):
        I.children_log.append(('children', me, node))
    visitor = Cls('NodeVisitor', [], {'generic_visit': Builtin(children)}, None)
    L['ast'] = Namespace('ast', {k: ip.Opaque('ast.' + k) for k in dir(ast)})
    L['ast'].complete = True
    L['ast'].d.update(NodeVisitor=visitor, dump=Builtin(lambda n: 'dump'))
    L['textwrap'] = Namespace('textwrap', {'dedent': Builtin(textwrap.dedent)})
    for k in ('builtins', '__builtin__'):
        L[k] = Namespace(k, {n: ip.Opaque(n) for n in dir(pybuiltins)})
        L[k].complete = True


class Check(object):
    """a checker with unknown allow lists"""

    def __init__(self, V, types):
        self.V, self.I, self.log = V, V.I, []
        python(V.I, self.log)
        self.o = ip.Obj(V.fn(SC))
        s = lambda k, v: self.I.setattr(self.o, k, v)
        self.sets = {}
        for k in ('allowed_functions', 'allowed_attributes', 'assigned_names', 'safe_names'):
            self.sets[k] = Names(self.I, k, self.log)
            s(k, self.sets[k])
        s('allowed_node_types', PDict({k: None for k in types}))
        s('print_each_node', bool(V.I.decide(var('print_each_node', 'B'))))

    def node(self, cls, **fields):
        n = ip.Obj(Cls(cls, [], {}, None))
        n.d.update(fields)
        return n

    def visit(self, method, node):
        """-> True when rejected with SyntaxError"""
        del self.log[:]
        try:
            self.I.call(self.I.getattr(self.o, method), [node])
        except PyExc as e:
            self.V.check('rejected with SyntaxError', e.tname == 'SyntaxError', 'raises %s' % e.tname)
            return True
        return False

    def outcome(self, label, rejected, allowed, node):
        """rejected exactly when not allowed; otherwise every child is visited"""
        V = self.V
        V.holds(label + (': rejected only if not allowed' if rejected else ': accepted only if allowed'), lnot(allowed) if rejected else allowed)
        kids = [e for e in self.log if e[0] == 'children']
        if not rejected:
            V.check(label + ': the children are checked', kids == [('children', self.o, node)])


def known(*c):
    return lor(*c)


def dispatch(cls):
    """method of the checker for a class of the syntax tree"""
    return 'visit_' + cls


for CLASS in NODES:
    @suite.ob('visit of %s' % CLASS, SC + '.generic_visit')
    def node_class(V, CLASS=CLASS):
        def go():
            for types in ([CLASS], []):
                c = Check(V, types)
                own = 'visit_' + CLASS
                if c.o.cls.lookup(own) is not ip.MISSING:
                    V.check('only Call, Name and Attribute have rules of their own', CLASS in ('Call', 'Name', 'Attribute'))
                    continue
                n = c.node(CLASS)
                c.outcome('%s %s the allowed node types' % (CLASS, 'in' if types else 'not in'), c.visit('generic_visit', n), tm.TRUE if types else tm.FALSE, n)
                V.check('nothing added', all(e[0] != 'add' for e in c.log))
            V.check('decided', True)
        V.run(go)


@suite.ob('visit_Call: only allowed functions are called by name', SC + '.visit_Call')
def call(V):
    def go():
        c = Check(V, [])
        x = Ident('f')
        n = c.node('Call', func=c.node('Name', id=x, ctx=c.node('Load')))
        c.outcome('call by name', c.visit('visit_Call', n), c.sets['allowed_functions'].has(x), n)
        for cls, fields in (('Attribute', dict(attr=Ident('g'))), ('Subscript', {}), ('Call', {}), ('Lambda', {})):
            n = c.node('Call', func=c.node(cls, **fields))
            c.outcome('call of %s' % cls, c.visit('visit_Call', n), tm.TRUE, n)
        V.check('nothing added', all(e[0] != 'add' for e in c.log))
    V.run(go)


@suite.ob('visit_Name: names are known before they are used', SC + '.visit_Name')
def name(V):
    def go():
        c = Check(V, [])
        x = Ident('x')
        use = c.node('Name', id=x, ctx=c.node('Load'))
        ok = lor(*[c.sets[k].has(x) for k in ('safe_names', 'allowed_functions', 'allowed_attributes', 'assigned_names')])
        c.outcome('name used', c.visit('visit_Name', use), ok, use)
        V.check('nothing added', all(e[0] != 'add' for e in c.log))
        for ctx in ('Store', 'Del'):
            n = c.node('Name', id=x, ctx=c.node(ctx))
            c.outcome('name with context %s' % ctx, c.visit('visit_Name', n), tm.TRUE, n)
            added = [e[1:] for e in c.log if e[0] == 'add']
            V.check('an assigned name may be used later, and only as a name', added == ([('assigned_names', x)] if ctx == 'Store' else []))
    V.run(go)


@suite.ob('visit_Attribute: only allowed attributes', SC + '.visit_Attribute')
def attribute(V):
    def go():
        c = Check(V, [])
        x = Ident('a')
        for ctx in ('Load', 'Store', 'Del'):
            n = c.node('Attribute', attr=x, value=c.node('Name', id=Ident('v'), ctx=c.node('Load')), ctx=c.node(ctx))
            c.outcome('attribute with context %s' % ctx, c.visit('visit_Attribute', n), lor(c.sets['allowed_functions'].has(x), c.sets['allowed_attributes'].has(x)), n)
            V.check('nothing added', all(e[0] != 'add' for e in c.log))
    V.run(go)


# ---------------------------------------------------------------- the allow lists
NEVER_NODES = 'Import ImportFrom alias ClassDef Nonlocal AsyncFunctionDef AsyncFor AsyncWith Await NamedExpr Exec'.split()
NEVER = ('__import__ eval exec execfile open file globals vars getattr setattr delattr object type_ breakpoint memoryview classmethod '
         'staticmethod property exit quit __build_class__ __loader__ __spec__ intern reload help').split()
NEVER_ATTRIBUTES = ('os sys system popen subprocess ctypes ctypeslib core lib compat testing distutils f2py builtins modules environ '
                    'gi_frame gi_code cr_frame f_globals f_builtins f_locals f_back tb_frame func_globals mro').split()
PLAIN_NODES = ('Module Assign Name Store Load Constant List Tuple Dict Set Call Attribute BinOp UnaryOp USub UAdd Add Sub Mult Div Mod Pow FloorDiv '
               'Subscript Slice keyword Expr If Compare Lt Gt LtE GtE Eq NotEq BoolOp And Or Not For While FunctionDef arguments arg Return ListComp comprehension').split()
PLAIN_FUNCTIONS = 'np numpy PolyLine abs max min range len sum float int list dict tuple str zip round enumerate sorted'.split()
PLAIN_ATTRIBUTES = 'linspace logspace array asarray arange zeros ones sin cos tan exp log log10 sqrt pi append extend sort x y x1 x2 y1 y2 format join'.split()


def made(V, allow):
    python(V.I, [])
    return V.I.call(V.fn(SC), [LList(list(allow))])


@suite.ob('the allow lists: nothing dangerous, everything plain', SC + '.__init__', *[SC + '.allow_' + k for k in ('ast', 'builtin', 'numpy', 'PolyLine')] + [SC + '._split_string_allow'])
def lists(V):
    def go():
        o = made(V, ['ast', 'builtin', 'numpy', 'PolyLine'])
        g = lambda k: V.I.getattr(o, k)
        types, fns, attrs = set(g('allowed_node_types').v), set(g('allowed_functions').v), set(g('allowed_attributes').v)
        for k in NEVER_NODES:
            V.check('node type %s not allowed' % k, k not in types)
        for k in NEVER:
            V.check('function %s not allowed' % k, k not in fns)
        for k in NEVER_ATTRIBUTES:
            V.check('attribute %s not allowed' % k, k not in attrs and k not in fns)
        V.check('no private attribute, function or name', not [k for k in attrs | fns if k.startswith('_')])
        V.check('no comment marker becomes a name', not [k for k in attrs | fns | types if '#' in k])
        for k in PLAIN_NODES:
            V.check('node type %s allowed' % k, k in types)
        for k in PLAIN_FUNCTIONS:
            V.check('function %s allowed' % k, k in fns)
        for k in PLAIN_ATTRIBUTES:
            V.check('attribute %s allowed' % k, k in attrs)
        V.check('safe names', set(g('safe_names').v) == {'True', 'False', 'None'})
        V.check('no name assigned yet', not g('assigned_names').v)
        V.check('functions are those of their modules', g('allowed_functions').v['np'] is V.I.libs['numpy'] and g('allowed_functions').v['PolyLine'] is V.fn('geotecha.piecewise.piecewise_linear_1d.PolyLine'))
    V.run(go)


@suite.ob('an empty checker allows nothing; unknown lists are refused', SC + '.__init__')
def empty(V):
    def go():
        o = made(V, [])
        for k in ('allowed_node_types', 'allowed_functions', 'allowed_attributes', 'assigned_names'):
            V.check('%s empty' % k, not V.I.getattr(o, k).v)
        for bad in ('everything', 'ast ', '_ast'):
            V.raises('allow list %r refused' % bad, lambda: made(V, [bad]), 'AttributeError')
        p, q = made(V, ['ast']), made(V, ['builtin'])
        V.check('checkers do not share lists', not V.I.getattr(p, 'allowed_functions').v and not V.I.getattr(q, 'allowed_node_types').v)
    V.run(go)


# ---------------------------------------------------------------- the text runs only after the check
class Tok(Abstract):
    def __init__(self, what, *of):
        Abstract.__init__(self, Cls(what, [], {}, None))
        self.what, self.of = what, of


def running(V, log, verdict):
    """Python's parse, compile and exec, recorded"""
    I = V.I
    python(I, log)
    mod = ip.Obj(Cls('module', [], {}, None))
    mod.d['__dict__'] = PDict({})
    I.libs['imp'] = Namespace('imp', {'new_module': Builtin(lambda name: mod)})
    I.libs['types'] = Namespace('types', {'ModuleType': Builtin(lambda name, doc=None: mod)})

    def parse(text, filename='<unknown>', mode='exec', **kw):
        V.check('parsed as a script', mode == 'exec')
        return Tok('tree', text)

    def comp(tree, filename, mode, *a, **kw):
        V.check('compiled as a script', mode == 'exec')
        return Tok('code', tree)

    def ex(code, glob=None, loc=None):
        V.check('runs in the new module', glob is mod.d['__dict__'] and (loc is None or loc is glob))
        log.append(('exec', code, dict(glob.v)))
    I.libs['ast'].d['parse'] = Builtin(parse)
    I.builtins['compile'], I.builtins['exec'] = Builtin(comp), Builtin(ex)

    def visit(me, tree):
        log.append(('visit', me, tree))
        if verdict == 'reject':
            raise PyExc('SyntaxError', ('not allowed',))
    return mod, visit


for verdict in ('accept', 'reject'):
    @suite.ob('make_module_from_text: %sed text' % verdict, IO + 'make_module_from_text')
    def text(V, verdict=verdict):
        def go():
            log = []
            mod, visit = running(V, log, verdict)
            text = Ident('text')
            ck = ip.Obj(V.fn(SC))
            ck.cls.attrs['visit'] = Builtin(lambda tree: visit(ck, tree))
            fns = PDict({'f': Ident('allowed f'), 'g': Ident('allowed g')})
            ck.d.update(allowed_functions=fns)
            try:
                r = V.I.call(V.fn(IO + 'make_module_from_text'), [text], {'syntax_checker': ck})
            except PyExc as e:
                V.check('rejected text raises SyntaxError', verdict == 'reject' and e.tname == 'SyntaxError')
                r = None
            kinds = [e[0] for e in log]
            V.check('checked before anything runs', kinds[:1] == ['visit'] and kinds.count('visit') == 1)
            tree = log[0][2]
            V.check('the tree of the text is checked', isinstance(tree, Tok) and tree.what == 'tree' and tree.of[0] is text and log[0][1] is ck)
            if verdict == 'reject':
                V.check('rejected text never runs', kinds == ['visit'] and r is None)
            else:
                V.check('runs once', kinds == ['visit', 'exec'])
                code = log[1][1]
                V.check('what runs is what was checked', isinstance(code, Tok) and code.what == 'code' and code.of[0] is tree)
                seen = log[1][2]
                V.check('the allowed functions are there', all(seen.get(k) is v for k, v in fns.v.items()) and set(seen) - {'__builtins__'} == set(fns.v))
                V.check('the module is returned', r is mod)
        V.run(go)


@suite.ob('make_module_from_text: without a checker, and with something else than a checker', IO + 'make_module_from_text')
def unchecked(V):
    def go():
        log = []
        mod, visit = running(V, log, 'accept')
        text = Ident('text')
        r = V.I.call(V.fn(IO + 'make_module_from_text'), [text])
        V.check('the text itself runs', r is mod and [e[0] for e in log] == ['exec'] and log[0][1] is text)
        del log[:]
        V.raises('a checker of another type is refused', lambda: V.I.call(V.fn(IO + 'make_module_from_text'), [text], {'syntax_checker': ip.Obj(Cls('Other', [], {}, None))}), 'TypeError')
        V.check('nothing ran', not log)
    V.run(go)


@suite.ob('input files of the programs are checked', IO + 'InputFileLoaderCheckerSaver._transfer_attributes_from_inputfile', IO + 'copy_attributes_from_text_to_object')
def loader(V):
    def go():
        python(V.I, [])
        seen = []
        text = Ident('text')
        V.I.contracts[IO + 'make_module_from_text'] = lambda I, f, args, kw: seen.append(I.bind(f, args, kw)) or ip.Obj(Cls('module', [], {}, None))
        o = ip.Obj(V.fn(IO + 'InputFileLoaderCheckerSaver'))
        o.d.update(_input_text=text, _attributes=LList([]), _attribute_defaults=PDict({}))
        V.I.call(V.I.getattr(o, '_transfer_attributes_from_inputfile'))
        V.check('one text', len(seen) == 1 and seen[0]['reader'] is text)
        ck = seen[0]['syntax_checker']
        V.check('with the checker', isinstance(ck, ip.Obj) and ck.cls is V.fn(SC))
        full = made(V, ['ast', 'builtin', 'numpy', 'PolyLine'])
        for k in ('allowed_node_types', 'allowed_functions', 'allowed_attributes'):
            V.check('%s as documented' % k, set(V.I.getattr(ck, k).v) <= set(V.I.getattr(full, k).v))
        V.check('plain scripts pass', all(k in V.I.getattr(ck, 'allowed_node_types').v for k in PLAIN_NODES))
    V.run(go)
