"""Mechanical extraction of the C++ samplers into the verifier's subset.

On every run clang parses cpp/samplers.cpp of the current tree (wrapped in a namespace so that exactly this file and its own
header are dumped), and every class and function found in the AST is printed as Python text, statement by statement; nothing is
selected or rewritten by hand.  What the extraction drops: access control, const, reference syntax (vectors and objects are shared
as in Python, copies are written out as copies), machine integer widths (integers are mathematical; conversions to unsigned
types carry the obligation that the value is not negative, / and % that both operands are not negative), asserts (the extension is
compiled with NDEBUG) and bodies that use constructs outside the subset: such a body becomes `raise NotImplementedError`, so a
contract that needs it fails.
"""
import json
import os
import re
import subprocess
import tempfile

PRELUDE = '''
class cxx_uniform_int:
    def __init__(self, a=0, b=2147483647):
        self.a = a
        self.b = b
    def draw(self, rd):
        return rd.randint(self.a, self.b + 1)

class cxx_uniform_real:
    def __init__(self, a=0, b=1):
        self.a = a
        self.b = b
    def draw(self, rd):
        return self.a + (self.b - self.a) * rd.rand()

'''


class Drop(Exception):
    pass


def dump(repo, extra=''):
    src = os.path.join(repo, 'cpp')
    inc = []
    for f in ('samplers.hpp', 'samplers.cpp'):
        inc += re.findall(r'^\s*#\s*include\s*<[^>]+>', open(os.path.join(src, f)).read(), re.M)
    ipy = subprocess.run([os.environ.get('CONIII_PYTHON', '/opt/venv/bin/python'), '-c',
                          'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include())'],
                         capture_output=True, text=True).stdout.split()
    with tempfile.TemporaryDirectory() as d:
        w = os.path.join(d, 'w.cpp')
        open(w, 'w').write('\n'.join(inc) + '\nnamespace pyvc_tu {\n#include "samplers.cpp"\n}\n')
        r = subprocess.run(['clang++', '-std=c++11', '-DNDEBUG', '-w', '-I' + src] + ['-I' + i for i in ipy] +
                           ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=pyvc_tu', w], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('clang: ' + r.stderr[-2000:])
    return json.JSONDecoder().raw_decode(r.stdout)[0]


def desug(t):
    return t.get('desugaredQualType', t.get('qualType', ''))


def clean(t):
    return re.sub(r'\bconst\b|[&]|pyvc_tu::|std::|class |struct ', '', t).strip()


def kindof(t):
    """vec:int vec:float vec:vec:int ... nd int float bool rngint rngreal engine ptr:int obj other"""
    t = clean(t)
    m = re.match(r'vector<(.*)>$', t)
    if m:
        a = m.group(1)
        depth, cut = 0, None
        for i, c in enumerate(a):
            depth += (c == '<') - (c == '>')
            if c == ',' and not depth:
                cut = i
                break
        return 'vec:' + kindof(a[:cut] if cut else a)
    if t.endswith('*'):
        return 'ptr:' + kindof(t[:-1])
    if 'ndarray' in t:
        return 'nd'
    if t.startswith('uniform_int_distribution'):
        return 'rngint'
    if t.startswith('uniform_real_distribution'):
        return 'rngreal'
    if t.startswith('mersenne_twister_engine') or t.startswith('mt19937'):
        return 'engine'
    if t in ('double', 'float', 'long double', 'result_type') and t != 'result_type':
        return 'float'
    if t in ('bool', '_Bool'):
        return 'bool'
    if t in ('int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'size_type', 'short', 'char', 'unsigned long long', 'long long', 'Py_intptr_t',
             'difference_type', 'unsigned short', 'unsigned char', 'signed char'):
        return 'int'
    return 'other:' + t


def unsigned(t):
    return clean(t) in ('unsigned int', 'unsigned long', 'size_t', 'size_type', 'unsigned long long', 'unsigned short', 'unsigned char')


TRANSPARENT = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr',
               'CXXFunctionalCastExpr'}
MATH = {'exp': 'np.exp', 'log': 'np.log', 'fabs': 'abs', 'abs': 'abs', 'sqrt': 'np.sqrt', 'pow': 'pow', 'min': 'min', 'max': 'max', 'floor': 'np.floor'}


class Fn:
    def __init__(self, un):
        self.un, self.lines, self.ind, self.tmp = un, [], 2, 0

    def put(self, s):
        self.lines.append('    ' * self.ind + s)

    # ---------------------------------------------------------------- expressions
    def peel(self, e):
        while True:
            if e['kind'] in TRANSPARENT:
                e = e['inner'][0]
            elif e['kind'] == 'ImplicitCastExpr' and e.get('castKind') in ('NoOp', 'LValueToRValue', 'UncheckedDerivedToBase', 'DerivedToBase',
                                                                           'FunctionToPointerDecay', 'IntegralCast', 'FloatingCast'):
                e = e['inner'][0]
            else:
                return e

    def is_lvec(self, e):
        """an expression naming an existing vector (so that using it as a value copies it)"""
        e = self.peel(e)
        k = kindof(desug(e.get('type', {})))
        if e['kind'] == 'CXXOperatorCallExpr':
            return k.startswith('vec:') and e.get('valueCategory') == 'lvalue'
        return k.startswith('vec:') and e['kind'] in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr')

    def value(self, e):
        """the value of e; vectors are values in C++, so a named vector is copied"""
        s = self.ex(e)
        p = self.peel(e)
        if kindof(desug(e.get('type', {}))).startswith('vec:') and self.is_lvec(p):
            return '%s.copy()' % s
        return s

    def ex(self, e, index=False):
        k = e['kind']
        if k in TRANSPARENT:
            s = self.ex(e['inner'][0], index)
            return '(%s)' % s if k == 'ParenExpr' else s
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Drop(k)
        return m(e, index) if k in ('ImplicitCastExpr', 'BinaryOperator', 'CXXStaticCastExpr', 'CStyleCastExpr') else m(e)

    def e_IntegerLiteral(self, e):
        return str(e['value'])

    def e_FloatingLiteral(self, e):
        return repr(float(e['value']))

    def e_CXXBoolLiteralExpr(self, e):
        return 'True' if e['value'] else 'False'

    def e_ImplicitCastExpr(self, e, index):
        c, a = e.get('castKind'), e['inner'][0]
        if c in ('LValueToRValue', 'NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'FloatingCast', 'ArrayToPointerDecay'):
            return self.ex(a, index)
        if c == 'IntegralToFloating':
            return self.ex(a)
        if c == 'IntegralCast':
            s = self.ex(a, index)
            ta, tb = desug(a.get('type', {})), desug(e['type'])
            if unsigned(tb) and not unsigned(ta) and not index and kindof(ta) == 'int' and self.peel(a)['kind'] != 'IntegerLiteral':
                return 'cxx_unsigned(%s)' % s
            if kindof(tb) == 'int' and kindof(ta) == 'bool':
                return '(1 if %s else 0)' % s
            return s
        if c == 'FloatingToIntegral':
            return 'cxx_static_cast_int(%s)' % self.ex(a)
        if c in ('IntegralToBoolean', 'FloatingToBoolean'):
            return '(%s != 0)' % self.ex(a)
        if c == 'ConstructorConversion':
            return self.ex(a)
        raise Drop('cast ' + str(c))

    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr

    def e_CXXReinterpretCastExpr(self, e):
        t = kindof(desug(e['type']))
        a = self.peel(e['inner'][0])
        if t in ('ptr:int', 'ptr:float') and a['kind'] == 'CXXMemberCallExpr':
            me = a['inner'][0]
            if me.get('name') == 'get_data':
                return "cxx_data(%s, '%s')" % (self.ex(me['inner'][0]), 'int32' if t == 'ptr:int' else 'float64')
        raise Drop('reinterpret_cast')

    def e_DeclRefExpr(self, e):
        r = e['referencedDecl']
        if r['kind'] in ('VarDecl', 'ParmVarDecl', 'FunctionDecl'):
            return self.un.var(r['name'])
        raise Drop('reference to ' + r['kind'])

    def e_CXXThisExpr(self, e):
        return 'self'

    def e_MemberExpr(self, e):
        return '%s.%s' % (self.ex(e['inner'][0]), e['name'])

    def e_UnaryOperator(self, e):
        o, a = e['opcode'], e['inner'][0]
        if o in ('-', '+'):
            return '(%s%s)' % (o, self.ex(a))
        if o == '!':
            return '(not %s)' % self.ex(a)
        if o == '*':
            p = self.peel(a)
            if p['kind'] == 'CXXThisExpr':
                return 'self'
            if p['kind'] == 'BinaryOperator' and p['opcode'] == '+' and kindof(desug(p['inner'][0]['type'])).startswith('ptr:'):
                return '%s[%s]' % (self.ex(p['inner'][0]), self.ex(p['inner'][1], True))
            if kindof(desug(a['type'])).startswith('ptr:'):
                return '%s[0]' % self.ex(a)
        if o in ('++', '--'):
            t = self.ex(a)
            if e.get('isPostfix'):
                self.tmp += 1
                v = 'cxx_t%d' % self.tmp
                self.put('%s = %s' % (v, t))
                self.put('%s %s= 1' % (t, o[0]))
                return v
            self.put('%s %s= 1' % (t, o[0]))
            return t
        raise Drop('unary ' + o)

    def e_BinaryOperator(self, e, index=False):
        o, (a, b) = e['opcode'], e['inner']
        t = desug(e['type'])
        if o == '=':
            return self.assign(e)
        if o == ',':
            self.stmt(a)
            return self.ex(b)
        n0 = len(self.lines)
        x = self.ex(a)
        n1 = len(self.lines)
        y = self.ex(b)
        if o in ('&&', '||'):
            if len(self.lines) != n1:
                raise Drop('side effect in a condition')
            return '(%s %s %s)' % (x, 'and' if o == '&&' else 'or', y)
        if len(self.lines) != n1 and self.peel(a)['kind'] not in ('IntegerLiteral', 'FloatingLiteral'):
            raise Drop('order of evaluation')
        if o in ('/', '%') and kindof(t) == 'int':
            return '%s(%s, %s)' % ('cxx_idiv' if o == '/' else 'cxx_imod', x, y)
        if o in ('+', '-', '*', '/', '<', '>', '<=', '>=', '==', '!='):
            if o == '-' and unsigned(t) and not index:
                return 'cxx_unsigned(%s - %s)' % (x, y)
            return '(%s %s %s)' % (x, o, y)
        if o in ('&', '|', '^', '<<', '>>') and kindof(t) == 'int':
            return '(%s %s %s)' % (x, o, y)
        raise Drop('binary ' + o)

    def e_ConditionalOperator(self, e):
        c, a, b = e['inner']
        n = len(self.lines)
        s = '(%s if %s else %s)' % (self.ex(a), self.ex(c), self.ex(b))
        if len(self.lines) != n:
            raise Drop('side effect in a conditional')
        return s

    def e_CompoundAssignOperator(self, e):
        a, b = e['inner']
        y = self.ex(b)
        x = self.ex(a)
        o = e['opcode'][:-1]
        ka, kb = kindof(desug(a['type'])), kindof(desug(b['type']))
        if ka == 'int' and o in ('/', '%'):
            if kb != 'int':
                raise Drop('mixed compound assignment')
            self.put('%s = %s(%s, %s)' % (x, 'cxx_idiv' if o == '/' else 'cxx_imod', x, y))
        elif ka == 'int' and kb != 'int' and kb != 'bool':
            self.put('%s = cxx_static_cast_int(%s %s %s)' % (x, x, o, y))
        elif o in ('+', '-', '*', '/'):
            self.put('%s %s= %s' % (x, o, y))
        else:
            raise Drop('compound ' + o)
        return x

    def assign(self, e):
        a, b = e['inner'][-2:]
        if self.peel(b)['kind'] == 'BinaryOperator' and self.peel(b)['opcode'] == '=':
            v = self.assign(self.peel(b))
        else:
            v = self.value(b)
        self.put('%s = %s' % (self.ex(a), v))
        return v if re.match(r'^[\w.]+$', v) else self.ex(a)

    def e_CXXOperatorCallExpr(self, e):
        f = self.peel(e['inner'][0])
        name = (f.get('referencedDecl') or {}).get('name', '')
        args = e['inner'][1:]
        ks = [kindof(desug(a.get('type', {}))) for a in args]
        if name == 'operator[]' and ks[0].startswith('vec:'):
            return '%s[%s]' % (self.ex(args[0]), self.ex(args[1], True))
        if name == 'operator()' and ks[0] in ('rngint', 'rngreal'):
            return '%s.draw(%s)' % (self.ex(args[0]), self.ex(args[1]))
        if name == 'operator=':
            if ks[0].startswith('vec:') or ks[0] in ('rngint', 'rngreal', 'engine', 'nd'):
                v = self.value(args[1])
                self.put('%s = %s' % (self.ex(args[0]), v))
                return self.ex(args[0])
        raise Drop('operator call %s %s' % (name, ks))

    def construct(self, e):
        k = kindof(desug(e['type']))
        args = [a for a in e.get('inner', []) if a['kind'] != 'CXXDefaultArgExpr']
        if k.startswith('vec:'):
            if not args:
                return '[]'
            ka = kindof(desug(args[0]['type']))
            if len(args) == 1 and ka == k:
                return self.value(args[0]) if args[0].get('valueCategory') != 'xvalue' else self.ex(args[0])
            el = k[4:]
            if ka == 'int' and el in ('int', 'float', 'bool'):
                dt = {'int': 'int', 'float': 'float', 'bool': 'bool'}[el]
                if len(args) == 1:
                    return 'np.zeros(%s, dtype=%s)' % (self.ex(args[0], True), dt)
                if kindof(desug(args[1]['type'])) in ('int', 'float', 'bool'):
                    return 'np.full(%s, %s, dtype=%s)' % (self.ex(args[0], True), self.ex(args[1]), dt)
            if ka == 'int' and el in ('vec:int', 'vec:float') and len(args) == 2:
                inner = self.peel(args[1])
                if inner['kind'] in ('CXXTemporaryObjectExpr', 'CXXConstructExpr'):
                    ia = [a for a in inner.get('inner', []) if a['kind'] != 'CXXDefaultArgExpr']
                    if ia and kindof(desug(ia[0]['type'])) == 'int':
                        return 'np.full((%s, %s), %s, dtype=%s)' % (self.ex(args[0], True), self.ex(ia[0], True), self.ex(ia[1]) if len(ia) > 1 else '0',
                                                                    el[4:])
            raise Drop('vector constructor')
        if k in ('rngint', 'rngreal'):
            if len(args) == 1 and kindof(desug(args[0]['type'])) == k:
                return self.ex(args[0])
            return 'cxx_uniform_%s(%s)' % (k[3:], ', '.join(self.ex(a) for a in args))
        if k == 'engine':
            if not args:
                return 'np.random.RandomState(5489)'
            if kindof(desug(args[0]['type'])) == 'engine':
                return self.ex(args[0])
            if kindof(desug(args[0]['type'])) != 'int':
                raise Drop('engine seed')
            p = self.peel(args[0])
            if p['kind'] == 'CXXOperatorCallExpr' and 'random_device' in json.dumps(p)[:20000]:
                return 'np.random.RandomState()'
            return 'np.random.RandomState(%s)' % self.ex(args[0], True)
        if len(args) == 1:
            return self.ex(args[0])      # copy of a handle (ndarray) or conversion
        raise Drop('constructor of ' + k)

    e_CXXConstructExpr = construct
    e_CXXTemporaryObjectExpr = construct

    def e_CXXMemberCallExpr(self, e):
        me, args = e['inner'][0], [a for a in e['inner'][1:] if a['kind'] != 'CXXDefaultArgExpr']
        if me['kind'] != 'MemberExpr':
            raise Drop('member call')
        ob = me['inner'][0]
        k = kindof(desug(self.peel(ob).get('type', {})))
        nm = me['name']
        if k.startswith('vec:'):
            o = self.ex(ob)
            if nm == 'size':
                return 'len(%s)' % o
            if nm in ('push_back', 'emplace_back'):
                self.put('%s.append(%s)' % (o, self.value(args[0])))
                return 'None'
            if nm == 'clear':
                self.put('%s = []' % o)
                return 'None'
            if nm == 'reserve':
                return 'None'
            if nm == 'at':
                return '%s[%s]' % (o, self.ex(args[0], True))
            if nm == 'empty':
                return '(len(%s) == 0)' % o
            if nm == 'back':
                return '%s[len(%s) - 1]' % (o, o)
            if nm == 'front':
                return '%s[0]' % o
            raise Drop('vector::' + nm)
        if k == 'nd' and nm == 'shape':
            return '%s.shape[%s]' % (self.ex(ob), self.ex(args[0], True))
        if k == 'nd' and nm == 'get_nd':
            return '%s.ndim' % self.ex(ob)
        if k == 'nd' and nm == 'astype':
            return "cxx_astype(%s, '%s')" % (self.ex(ob), self.dtype(args[0]))
        if k == 'nd' and nm == 'copy':
            return '%s.copy()' % self.ex(ob)
        if self.peel(ob)['kind'] == 'CXXThisExpr':
            vals = [self.ex(a) if self.byref(e, i) else self.value(a) for i, a in enumerate(args)]
            return '%s.%s(%s)' % (self.ex(ob), nm, ', '.join(vals))
        raise Drop('call of %s on %s' % (nm, k))

    def dtype(self, e):
        """float64 or int32 for an expression get_builtin<T>() or a variable initialised with it (the template argument is read
        from the source text: the AST dump does not carry it)"""
        p = self.peel(e)
        if p['kind'] == 'CXXConstructExpr' and p.get('inner'):
            return self.dtype(p['inner'][0])
        if p['kind'] == 'DeclRefExpr' and p['referencedDecl'].get('name') in self.un.dtypes:
            return self.un.dtypes[p['referencedDecl']['name']]
        if p['kind'] == 'CallExpr':
            r = p['range']
            a, b = r['begin'].get('offset'), r['end'].get('offset')
            m = re.search(r'get_builtin\s*<\s*(\w+)\s*>', self.un.src[a:b + 1]) if a is not None and b is not None else None
            if m and m.group(1) in ('double', 'int'):
                return {'double': 'float64', 'int': 'int32'}[m.group(1)]
        raise Drop('element type')

    def byref(self, e, i):
        """does the callee take argument i by reference (constructor calls mark by-value copies of vectors themselves)"""
        return True

    def e_CallExpr(self, e):
        f = self.peel(e['inner'][0])
        r = f.get('referencedDecl') or {}
        args = [a for a in e['inner'][1:] if a['kind'] != 'CXXDefaultArgExpr']
        nm = r.get('name')
        if r.get('kind') in ('FunctionDecl',) and nm in self.un.free:
            return '%s(%s)' % (self.un.var(nm), ', '.join(self.ex(a) for a in args))
        if nm == 'swap' and len(args) == 2:
            a, b = self.ex(args[0]), self.ex(args[1])
            self.put('%s, %s = %s, %s' % (a, b, b, a))
            return 'None'
        if nm in MATH:
            return '%s(%s)' % (MATH[nm], ', '.join(self.ex(a) for a in args))
        raise Drop('call of ' + str(nm))

    # ---------------------------------------------------------------- statements
    def stmt(self, s):
        k = s['kind']
        if k in TRANSPARENT:
            inner = s['inner'][0]
            return self.stmt(inner)
        m = getattr(self, 's_' + k, None)
        if m:
            return m(s)
        v = self.ex(s)
        if k in ('CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr') and v != 'None' and '(' in v:
            self.put(v)

    def block(self, s):
        self.ind += 1
        n = len(self.lines)
        if s is not None:
            self.stmt(s)
        if len(self.lines) == n:
            self.put('pass')
        self.ind -= 1

    def s_CompoundStmt(self, s):
        for x in s.get('inner', []):
            self.stmt(x)

    def s_NullStmt(self, s):
        pass

    def s_CXXStaticCastExpr(self, s):
        if s.get('castKind') == 'ToVoid':
            return
        self.ex(s)

    s_CStyleCastExpr = s_CXXStaticCastExpr

    def s_DeclStmt(self, s):
        for v in s['inner']:
            if v['kind'] == 'TypedefDecl' or v['kind'] == 'TypeAliasDecl' or v['kind'] == 'UsingDecl':
                continue
            if v['kind'] != 'VarDecl' or v.get('storageClass') == 'static':
                raise Drop('declaration')
            k = kindof(desug(v['type']))
            if k.startswith('other:') and not desug(v['type']).endswith('&'):
                if k in ('other:boost::python::tuple', 'other:boost::python::numpy::dtype', 'other:py::tuple', 'other:np::dtype'):
                    self.un.skipped.add(v['name'])       # Python objects that no extracted code uses
                    self.un.dtypes.pop(v['name'], None)
                    try:
                        self.un.dtypes[v['name']] = self.dtype(v['inner'][0])
                    except (Drop, KeyError, IndexError):
                        pass
                    continue
                raise Drop('variable of type ' + k)
            if 'init' in v:
                x = self.ex(v['inner'][0]) if desug(v['type']).rstrip().endswith('&') else self.value(v['inner'][0])
                if desug(v['type']).rstrip().endswith('&') and not k.startswith('vec:'):
                    if 'const' not in v['type']['qualType']:
                        raise Drop('reference variable')
                self.put('%s = %s' % (self.un.var(v['name']), x))
            else:
                self.un.declared.add(v['name'])

    def s_ReturnStmt(self, s):
        if s.get('inner'):
            v = self.value(s['inner'][0])
            self.put('return ' + v)
        else:
            self.put('return')

    def s_BreakStmt(self, s):
        self.put('break')

    def s_ContinueStmt(self, s):
        self.put('continue')

    def s_IfStmt(self, s):
        if s.get('hasInit') or s.get('hasVar'):
            raise Drop('if with initialiser')
        c, a = s['inner'][:2]
        self.put('if %s:' % self.ex(c))
        self.block(a)
        if len(s['inner']) > 2:
            self.put('else:')
            self.block(s['inner'][2])

    def s_WhileStmt(self, s):
        c, b = s['inner'][-2:]
        n = len(self.lines)
        x = self.ex(c)
        if len(self.lines) != n:
            raise Drop('side effect in a loop condition')
        self.put('while %s:' % x)
        self.block(b)

    def assigns(self, s, name, top=True):
        """is the variable assigned in this statement"""
        if not isinstance(s, dict):
            return False
        k = s.get('kind')
        if k in ('BinaryOperator', 'CompoundAssignOperator') and (k == 'CompoundAssignOperator' or s.get('opcode') == '='):
            if self.names(s['inner'][0], name):
                return True
        if k == 'UnaryOperator' and s.get('opcode') in ('++', '--', '&') and self.names(s['inner'][0], name):
            return True
        return any(self.assigns(x, name) for x in s.get('inner', []))

    def names(self, e, name):
        e = self.peel(e)
        return (e['kind'] == 'DeclRefExpr' and e['referencedDecl'].get('name') == name) or (e['kind'] == 'MemberExpr' and e.get('name') == name)

    def vars_of(self, e):
        out = set()
        if e.get('kind') == 'DeclRefExpr':
            out.add(e['referencedDecl'].get('name'))
        if e.get('kind') == 'MemberExpr':
            out.add(e.get('name'))
        for x in e.get('inner', []):
            out |= self.vars_of(x)
        return out

    def s_ForStmt(self, s):
        init, _, cond, inc, body = s['inner']
        r = self.counting(init, cond, inc, body)
        if r:
            self.put('for %s in range(%s):' % r)
            self.block(body)
            return
        if self.has(body, 'ContinueStmt'):
            raise Drop('continue in a general for loop')
        if init.get('kind'):
            self.stmt(init)
        n = len(self.lines)
        x = self.ex(cond) if cond.get('kind') else 'True'
        if len(self.lines) != n:
            raise Drop('side effect in a loop condition')
        self.put('while %s:' % x)
        self.ind += 1
        self.stmt(body)
        if inc.get('kind'):
            self.stmt(inc)
        self.ind -= 1

    def has(self, s, kind):
        return s.get('kind') == kind or any(self.has(x, kind) for x in s.get('inner', []) if x.get('kind') not in ('ForStmt', 'WhileStmt'))

    def counting(self, init, cond, inc, body):
        """for (int i = a; i < b; ++i) with i and the bound not assigned in the body"""
        if init.get('kind') != 'DeclStmt' or len(init['inner']) != 1 or 'init' not in init['inner'][0]:
            return None
        v = init['inner'][0]
        if kindof(desug(v['type'])) != 'int' or cond.get('kind') != 'BinaryOperator' or inc.get('kind') not in ('UnaryOperator', 'CompoundAssignOperator'):
            return None
        nm = v['name']
        if not self.names(inc['inner'][0], nm) or not self.names(cond['inner'][0], nm):
            return None
        if inc['kind'] == 'CompoundAssignOperator':
            o = self.peel(inc['inner'][1])
            if o['kind'] != 'IntegerLiteral' or o['value'] != '1' or inc['opcode'] not in ('+=', '-='):
                return None
            up = inc['opcode'] == '+='
        else:
            if inc['opcode'] not in ('++', '--'):
                return None
            up = inc['opcode'] == '++'
        bound = cond['inner'][1]
        if self.assigns(body, nm):
            return None
        for x in self.vars_of(bound):
            if self.assigns(body, x):
                return None
        if 'CXXOperatorCallExpr' in json.dumps(bound) or (self.has(bound, 'CallExpr')):
            return None
        if self.has(bound, 'CXXMemberCallExpr'):
            mc = self.peel(bound)
            if mc['kind'] != 'CXXMemberCallExpr' or mc['inner'][0].get('name') not in ('size', 'shape'):
                return None
            if 'push_back' in json.dumps(body) or 'clear' in json.dumps(body):
                for x in self.vars_of(mc['inner'][0]['inner'][0]):
                    if self.grows(body, x):
                        return None
        n = len(self.lines)
        a, b = self.ex(v['inner'][0]), self.ex(bound, True)
        if len(self.lines) != n:
            return None
        o = cond['opcode']
        i = self.un.var(nm)
        if up and o == '<':
            return i, '%s, %s' % (a, b)
        if up and o == '<=':
            return i, '%s, %s + 1' % (a, b)
        if not up and o == '>':
            return i, '%s, %s, -1' % (a, b)
        if not up and o == '>=':
            return i, '%s, %s - 1, -1' % (a, b)
        return None

    def grows(self, s, name):
        if s.get('kind') == 'CXXMemberCallExpr':
            me = s['inner'][0]
            if me.get('name') in ('push_back', 'emplace_back', 'clear', 'resize', 'pop_back') and name in self.vars_of(me):
                return True
        return any(self.grows(x, name) for x in s.get('inner', []))

    def s_DoStmt(self, s):
        raise Drop('do')

    def s_CXXForRangeStmt(self, s):
        raise Drop('range for')


KEYWORDS = {'and', 'as', 'def', 'del', 'from', 'global', 'in', 'is', 'lambda', 'not', 'or', 'pass', 'print', 'raise', 'with', 'yield', 'None', 'np', 'self',
            'len', 'range', 'pow', 'abs', 'min', 'max'}


class Unit:
    """Everything found in the translation unit."""

    def __init__(self, tu, src=''):
        self.src = src
        self.skipped, self.declared, self.dtypes = set(), set(), {}
        self.classes, self.free, self.dropped = {}, set(), {}
        owner = {}
        for c in tu['inner']:
            if c['kind'] == 'CXXRecordDecl' and c.get('completeDefinition'):
                self.classes[c['name']] = dict(bases=[clean(desug(b['type'])) for b in c.get('bases', [])], fields=[], methods=[])
                for m in c.get('inner', []):
                    owner[m.get('id')] = c['name']
                    if m['kind'] == 'FieldDecl':
                        self.classes[c['name']]['fields'].append((m['name'], desug(m['type'])))
                    if m['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl') and self.body(m) is not None and not m.get('isImplicit'):
                        self.classes[c['name']]['methods'].append(m)
            elif c['kind'] == 'FunctionDecl':
                self.free.add(c['name'])
        self.functions = []
        for c in tu['inner']:
            if c['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl') and self.body(c) is not None:
                o = owner.get(c.get('previousDecl'))
                if o:
                    self.classes[o]['methods'].append(c)
            elif c['kind'] == 'FunctionDecl' and self.body(c) is not None:
                self.functions.append(c)

    def body(self, m):
        for x in m.get('inner', []):
            if x['kind'] == 'CompoundStmt':
                return x
        return None

    def var(self, n):
        return n + '_' if n in KEYWORDS else n

    def params(self, m):
        out = []
        for p in m.get('inner', []):
            if p['kind'] == 'ParmVarDecl':
                t = desug(p['type'])
                k = kindof(t)
                if t.rstrip().endswith('&') and 'const' not in t and not k.startswith('vec:') and k not in ('engine', 'rngint', 'rngreal', 'nd'):
                    raise Drop('scalar passed by reference')
                d = ''
                if 'init' in p:
                    d = '=' + Fn(self).ex(p['inner'][0])
                out.append(self.var(p.get('name', '_%d' % len(out))) + d)
        return out

    def sig(self, m):
        ks = [kindof(desug(p['type'])) for p in m.get('inner', []) if p['kind'] == 'ParmVarDecl']
        return '_'.join(k.split(':')[0] for k in ks)

    def emit(self):
        out = ['import numpy as np', PRELUDE]
        done = []

        def one(name):
            if name in done or name not in self.classes:
                return
            for b in self.classes[name]['bases']:
                one(b)
            done.append(name)
            out.append(self.cls(name))
        for n in self.classes:
            one(n)
        for f in self.functions:
            out.append(self.fn(f, self.var(f['name']), None))
        return '\n'.join(out) + '\n'

    def cls(self, name):
        c = self.classes[name]
        lines = ['class %s(%s):' % (name, ', '.join(b for b in c['bases'] if b in self.classes) or 'object'), '    def __init__(self):', '        pass']
        seen = {}
        for m in c['methods']:
            nm = m['name'] if m['kind'] == 'CXXMethodDecl' else '%s__%s' % (m['name'], self.sig(m))
            seen[nm] = seen.get(nm, 0) + 1
            if seen[nm] > 1:
                nm += '__%d' % seen[nm]
            lines.append(self.fn(m, nm, name))
        return '\n'.join(lines) + '\n'

    def fn(self, m, nm, cls):
        ind = '    ' if cls else ''
        f = Fn(self)
        f.ind = 2 if cls else 1
        try:
            ps = (['self'] if cls else []) + self.params(m)
            if m['kind'] == 'CXXConstructorDecl':
                for i in m['inner']:
                    if i['kind'] == 'CXXCtorInitializer':
                        x = i['inner'][0]
                        if 'baseInit' in i:
                            y = f.peel(x)
                            b = clean(desug(i['baseInit']))
                            if b not in self.classes:
                                continue
                            ks = '_'.join(kindof(desug(a['type'])).split(':')[0] for a in y.get('inner', []) if a['kind'] != 'CXXDefaultArgExpr')
                            f.put('self.%s__%s(%s)' % (b, ks, ', '.join(f.value(a) for a in y.get('inner', []) if a['kind'] != 'CXXDefaultArgExpr')))
                        else:
                            f.put('self.%s = %s' % (i['anyInit']['name'], f.value(x)))
            f.stmt(self.body(m))
            if not f.lines:
                f.put('pass')
        except Drop as e:
            self.dropped['%s.%s' % (cls, nm) if cls else nm] = str(e)
            return '%sdef %s(self, *args):\n%s    raise NotImplementedError(%r)' % (ind, nm, ind, 'not extracted: ' + str(e)) if cls else \
                   'def %s(*args):\n    raise NotImplementedError(%r)' % (nm, 'not extracted: ' + str(e))
        return '%sdef %s(%s):\n%s' % (ind, nm, ', '.join(ps), '\n'.join(f.lines))


_cache = {}


def extract(repo):
    """(Python text, {dropped function: reason}) of the samplers of this tree."""
    if repo in _cache:
        return _cache[repo]
    d = os.environ.get('PYVC_SCRATCH')
    p = os.path.join(d, 'cxx.json') if d else None
    if p and os.path.exists(p):
        r = tuple(json.load(open(p)))
    else:
        u = Unit(dump(repo), open(os.path.join(repo, 'cpp', 'samplers.cpp'), errors='replace').read())
        r = (u.emit(), u.dropped)
        if p:
            t = '%s.%d' % (p, os.getpid())
            json.dump(r, open(t, 'w'))
            os.rename(t, p)
    _cache[repo] = r
    return r


if __name__ == '__main__':
    import sys
    s, d = extract(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    print(s)
    print('# dropped:', d)
