"""Cython syntax trees as Python `ast` trees, so that one analysis covers
both layers.  C declarations keep their type in `.ctype`; casts, addresses,
`new` and sizeof become calls of the pseudo-functions below."""
import ast
import os

from . import pyx
from .cxx import PKG

CAST, ADDR, NEW, SIZEOF = '__cast__', '__addr__', '__new__', '__sizeof__'
_cache = {}

CMP = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '>': ast.Gt, '<=': ast.LtE,
       '>=': ast.GtE, 'is': ast.Is, 'is_not': ast.IsNot, 'in': ast.In,
       'not_in': ast.NotIn, 'is not': ast.IsNot, 'not in': ast.NotIn}
BIN = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '%': ast.Mod,
       '**': ast.Pow, '//': ast.FloorDiv, '@': ast.MatMult, '|': ast.BitOr,
       '&': ast.BitAnd, '^': ast.BitXor, '<<': ast.LShift, '>>': ast.RShift}


def ctype(base, decl=None):
    """Readable C type of a declaration."""
    k = pyx.kind(base)
    if k == 'CSimpleBaseTypeNode':
        s = '.'.join([*map(str, base.module_path or []), str(base.name)])
        if base.is_basic_c_type:
            s = {1: 'long ', 2: 'long long ', -1: 'short '}.get(
                base.longness, '') + s
            if base.signed == 0:
                s = 'unsigned ' + s
            if base.complex:
                s += ' complex'
    elif k == 'TemplatedTypeNode':
        a = []
        for p in base.positional_args or []:
            if pyx.kind(p) in ('CComplexBaseTypeNode',):
                a.append(ctype(p.base_type, p.declarator))
            elif pyx.kind(p) in ('CSimpleBaseTypeNode', 'TemplatedTypeNode'):
                a.append(ctype(p))
            else:
                a.append(str(getattr(p, 'value', '?')))
        s = f'{ctype(base.base_type_node)}[{", ".join(a)}]'
        kw = base.keyword_args
        if kw is not None:
            for it in getattr(kw, 'key_value_pairs', []):
                s += f'<{it.key.value}={it.value.value}>'
    elif k == 'CComplexBaseTypeNode':
        s = ctype(base.base_type, base.declarator)
    elif k == 'MemoryViewSliceTypeNode':
        s = ctype(base.base_type_node) + '[:]' + '*' * (len(base.axes) - 1)
    else:
        s = '?'
    d, suf = decl, ''
    while d is not None:
        dk = pyx.kind(d)
        if dk == 'CPtrDeclaratorNode':
            suf += '*'
        elif dk == 'CReferenceDeclaratorNode':
            suf += '&'
        elif dk == 'CArrayDeclaratorNode':
            suf += '[%s]' % getattr(d.dimension, 'value', '')
        d = getattr(d, 'base', None)
    return s + suf


class Conv:
    def __init__(self, name):
        self.name = name

    def loc(self, new, n):
        for x in ast.walk(new):
            if not hasattr(x, 'lineno') and isinstance(x, (
                    ast.expr, ast.stmt, ast.arg, ast.keyword,
                    ast.excepthandler, ast.alias)):
                x.lineno = x.end_lineno = pyx.line(n)
                x.col_offset = x.end_col_offset = n.pos[2] if n.pos else 0
        return new

    # expressions
    def e(self, n):
        if n is None:
            return None
        m = getattr(self, 'e_' + pyx.kind(n), None)
        if m is None:
            k = pyx.kind(n)
            if hasattr(n, 'operand1') and hasattr(n, 'operator') and \
                    str(n.operator) in BIN:
                return self.loc(ast.BinOp(self.e(n.operand1), BIN[str(
                    n.operator)](), self.e(n.operand2)), n)
            r = ast.Call(ast.Name('__cython__' + k, ast.Load()),
                         [self.e(c) for c in pyx.kids(n)
                          if hasattr(c, 'is_temp') or True], [])
            return self.loc(r, n)
        return self.loc(m(n), n)

    def nm(self, s, ctx=None):
        return ast.Name(str(s), ctx or ast.Load())

    def e_NameNode(self, n):
        return self.nm(n.name)

    def e_AttributeNode(self, n):
        return ast.Attribute(self.e(n.obj), str(n.attribute), ast.Load())

    def const(self, v):
        return ast.Constant(v)

    def e_UnicodeNode(self, n):
        return self.const(str(n.value))

    e_IdentifierStringNode = e_StringNode = e_UnicodeNode

    def e_BytesNode(self, n):
        return self.const(bytes(n.value))

    def e_IntNode(self, n):
        return self.const(int(str(n.value).rstrip('LlUu'), 0))

    def e_FloatNode(self, n):
        return self.const(float(str(n.value)))

    def e_ImagNode(self, n):
        return self.const(complex(0, float(str(n.value))))

    def e_BoolNode(self, n):
        return self.const(bool(n.value))

    def e_NoneNode(self, n):
        return self.const(None)

    def e_NullNode(self, n):
        return self.const(None)

    def e_EllipsisNode(self, n):
        return self.const(...)

    def e_DictNode(self, n):
        return ast.Dict([self.e(i.key) for i in n.key_value_pairs],
                        [self.e(i.value) for i in n.key_value_pairs])

    def e_ListNode(self, n):
        r = ast.List([self.e(a) for a in n.args], ast.Load())
        if n.mult_factor is not None:
            return ast.BinOp(r, ast.Mult(), self.e(n.mult_factor))
        return r

    def e_TupleNode(self, n):
        return ast.Tuple([self.e(a) for a in n.args], ast.Load())

    def e_SetNode(self, n):
        return ast.Set([self.e(a) for a in n.args])

    def e_BoolBinopNode(self, n):
        op = ast.And() if str(n.operator) == 'and' else ast.Or()
        return ast.BoolOp(op, [self.e(n.operand1), self.e(n.operand2)])

    def e_NotNode(self, n):
        return ast.UnaryOp(ast.Not(), self.e(n.operand))

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(ast.USub(), self.e(n.operand))

    def e_UnaryPlusNode(self, n):
        return ast.UnaryOp(ast.UAdd(), self.e(n.operand))

    def e_PrimaryCmpNode(self, n):
        ops, cs = [CMP[str(n.operator)]()], [self.e(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMP[str(c.operator)]())
            cs.append(self.e(c.operand2))
            c = c.cascade
        return ast.Compare(self.e(n.operand1), ops, cs)

    def e_CondExprNode(self, n):
        return ast.IfExp(self.e(n.condition), self.e(n.true_val),
                         self.e(n.false_val))

    def e_IndexNode(self, n):
        return ast.Subscript(self.e(n.base), self.e(n.index), ast.Load())

    def e_SliceIndexNode(self, n):
        return ast.Subscript(self.e(n.base), ast.Slice(
            self.e(n.start), self.e(n.stop), None), ast.Load())

    def e_SliceNode(self, n):
        def f(x):
            return None if x is None or pyx.kind(x) == 'NoneNode' \
                else self.e(x)
        return ast.Slice(f(n.start), f(n.stop), f(n.step))

    def func(self, f):
        if pyx.kind(f) == 'NewExprNode':
            t = getattr(f.cppclass, 'name', None)
            if t is None:
                t = ctype(f.cppclass)
            r = ast.Name(NEW + str(t), ast.Load())
            return self.loc(r, f)
        return self.e(f)

    def e_NewExprNode(self, n):
        return ast.Name(NEW + str(getattr(n.cppclass, 'name', '?')),
                        ast.Load())

    def e_SimpleCallNode(self, n):
        return ast.Call(self.func(n.function),
                        [self.e(a) for a in n.args], [])

    def e_GeneralCallNode(self, n):
        kws = []

        def add(k):
            if k is None:
                return
            if pyx.kind(k) == 'DictNode':
                for i in k.key_value_pairs:
                    kws.append(ast.keyword(str(i.key.value),
                                           self.e(i.value)))
            elif pyx.kind(k) == 'MergedDictNode':
                for x in k.keyword_args:
                    add(x)
            else:
                kws.append(ast.keyword(None, self.e(k)))
        add(n.keyword_args)
        pa = n.positional_args
        args = []

        def pos(p):
            if pyx.kind(p) == 'TupleNode':
                for a in p.args:
                    args.append(self.e(a))
            elif pyx.kind(p) == 'AsTupleNode':
                args.append(ast.Starred(self.e(p.arg), ast.Load()))
            elif pyx.kind(p) == 'AddNode':
                pos(p.operand1)
                pos(p.operand2)
            else:
                args.append(ast.Starred(self.e(p), ast.Load()))
        pos(pa)
        return ast.Call(self.func(n.function), args, kws)

    def e_StarredUnpackingNode(self, n):
        return ast.Starred(self.e(n.target), ast.Load())

    def e_TypecastNode(self, n):
        t = ctype(n.base_type, n.declarator)
        return ast.Call(self.nm(CAST), [ast.Constant(t),
                                          self.e(n.operand)], [])

    def e_AmpersandNode(self, n):
        return ast.Call(self.nm(ADDR), [self.e(n.operand)], [])

    def e_SizeofVarNode(self, n):
        return ast.Call(self.nm(SIZEOF), [self.e(n.operand)], [])

    def e_SizeofTypeNode(self, n):
        return ast.Call(self.nm(SIZEOF), [ast.Constant(ctype(
            n.base_type, n.declarator))], [])

    def e_AssignmentExpressionNode(self, n):
        a = n.assignment
        return ast.NamedExpr(self.store(self.e(a.lhs)), self.e(n.rhs)
                             if getattr(n, 'rhs', None) is not None
                             else self.e(a.rhs))

    def e_JoinedStrNode(self, n):
        return ast.JoinedStr([self.e(v) for v in n.values])

    def e_FormattedValueNode(self, n):
        return ast.FormattedValue(self.e(n.value), -1, None)

    def e_LambdaNode(self, n):
        return ast.Lambda(self.args(n), self.e(n.result_expr))

    def e_ComprehensionNode(self, n):
        gens, elt = [], None
        s = n.loop
        while True:
            k = pyx.kind(s)
            if k == 'ForInStatNode':
                gens.append(ast.comprehension(
                    self.store(self.e(s.target)),
                    self.e(s.iterator.sequence), [], 0))
                s = s.body
            elif k == 'IfStatNode':
                gens[-1].ifs.append(self.e(s.if_clauses[0].condition))
                s = s.if_clauses[0].body
            elif k == 'StatListNode' and len(s.stats) == 1:
                s = s.stats[0]
            elif k == 'ComprehensionAppendNode':
                return ast.ListComp(self.e(s.expr), gens)
            elif k == 'DictComprehensionAppendNode':
                return ast.DictComp(self.e(s.key_expr),
                                    self.e(s.value_expr), gens)
            elif k == 'ExprStatNode':
                s = s.expr
            elif k == 'YieldExprNode':
                return ast.ListComp(self.e(s.arg), gens)
            else:
                return ast.Call(self.nm('__cython__' + k), [], [])

    e_InlinedGeneratorExpressionNode = None

    def e_GeneratorExpressionNode(self, n):
        return self.e_ComprehensionNode(n)

    def store(self, t):
        for x in ast.walk(t):
            if x is t or (isinstance(x, (ast.Tuple, ast.List, ast.Name,
                                         ast.Starred))
                          and self.intuple(t, x)):
                if hasattr(x, 'ctx'):
                    x.ctx = ast.Store()
        return t

    def intuple(self, t, x):
        if t is x:
            return True
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(self.intuple(y, x) for y in t.elts)
        if isinstance(t, ast.Starred):
            return self.intuple(t.value, x)
        return False

    # statements
    def body(self, n):
        if n is None:
            return []
        out = []
        for s in (n.stats if pyx.kind(n) == 'StatListNode' else [n]):
            r = self.s(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def block(self, n):
        return self.body(n) or [self.loc(ast.Pass(), n)] if n is not None \
            else []

    def s(self, n):
        m = getattr(self, 's_' + pyx.kind(n), None)
        if m is None:
            if pyx.kind(n).endswith('StatNode') or pyx.kind(n) in (
                    'CDefExternNode', 'CppClassNode', 'CTypeDefNode',
                    'CStructOrUnionDefNode', 'CEnumDefNode'):
                return None
            return self.loc(ast.Expr(self.e(n)), n)
        r = m(n)
        if r is None:
            return None
        for x in r if isinstance(r, list) else [r]:
            self.loc(x, n)
        return r

    def s_StatListNode(self, n):
        return self.body(n)

    def s_CompilerDirectivesNode(self, n):
        return self.body(n.body)

    def s_CDefExternNode(self, n):
        return None

    def s_ExprStatNode(self, n):
        return ast.Expr(self.e(n.expr))

    def s_SingleAssignmentNode(self, n):
        if pyx.kind(n.rhs) == 'ImportNode':
            nm = str(n.rhs.module_name.value)
            return ast.Import([ast.alias(nm, str(n.lhs.name))])
        if pyx.kind(n.rhs) == 'Py3ClassNode' or pyx.kind(
                n.lhs) == 'NameNode' and False:
            return None
        return ast.Assign([self.store(self.e(n.lhs))], self.e(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        return ast.Assign([self.store(self.e(x)) for x in n.lhs_list],
                          self.e(n.rhs))

    def s_ParallelAssignmentNode(self, n):
        return [x for s in n.stats for x in [self.s(s)] if x is not None]

    def s_InPlaceAssignmentNode(self, n):
        return ast.AugAssign(self.store(self.e(n.lhs)),
                             BIN.get(str(n.operator), ast.Add)(),
                             self.e(n.rhs))

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            if pyx.func_declarator(d) is not None:
                continue
            nm = pyx.decl_name(d)[0]
            x = d
            default = None
            while x is not None:
                default = getattr(x, 'default', None) or default
                x = getattr(x, 'base', None)
            t = ctype(n.base_type, d)
            if default is None:
                a = ast.AnnAssign(ast.Name(nm, ast.Store()),
                                  ast.Constant(t), None, 1)
            else:
                a = ast.Assign([ast.Name(nm, ast.Store())],
                               self.e(default))
            a.ctype = t
            out.append(a)
        return out

    def s_IfStatNode(self, n):
        els = self.body(n.else_clause) if n.else_clause is not None else []
        cur = None
        for c in reversed(n.if_clauses):
            cur = self.loc(ast.If(self.e(c.condition), self.block(c.body),
                                  els), c)
            els = [cur]
        return cur

    def s_ForInStatNode(self, n):
        return ast.For(self.store(self.e(n.target)),
                       self.e(n.iterator.sequence), self.block(n.body),
                       self.body(n.else_clause))

    def s_ForFromStatNode(self, n):
        return ast.For(self.store(self.e(n.target)), ast.Call(
            self.nm('range'), [self.e(n.bound1), self.e(n.bound2)], []),
            self.block(n.body), [])

    def s_WhileStatNode(self, n):
        return ast.While(self.e(n.condition), self.block(n.body),
                         self.body(n.else_clause))

    def s_ReturnStatNode(self, n):
        return ast.Return(self.e(n.value))

    def s_RaiseStatNode(self, n):
        return ast.Raise(self.e(n.exc_type), self.e(n.cause))

    def s_PassStatNode(self, n):
        return ast.Pass()

    def s_BreakStatNode(self, n):
        return ast.Break()

    def s_ContinueStatNode(self, n):
        return ast.Continue()

    def s_DelStatNode(self, n):
        r = ast.Delete([self.e(a) for a in n.args])
        return r

    def s_AssertStatNode(self, n):
        return ast.Assert(self.e(n.condition), None)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            p = c.pattern
            t = None
            if p:
                ps = [self.e(x) for x in p]
                t = ps[0] if len(ps) == 1 else ast.Tuple(ps, ast.Load())
            hs.append(self.loc(ast.ExceptHandler(
                t, str(c.target.name) if c.target is not None else None,
                self.block(c.body)), c))
        return ast.Try(self.block(n.body), hs, self.body(n.else_clause), [])

    def s_TryFinallyStatNode(self, n):
        b = self.block(n.body)
        f = self.body(n.finally_clause)
        if len(b) == 1 and isinstance(b[0], ast.Try) and \
                not b[0].finalbody:
            b[0].finalbody = f
            return b[0]
        return ast.Try(b, [], [], f)

    def s_WithStatNode(self, n):
        body = n.body
        tgt = n.target
        if pyx.kind(body) == 'StatListNode' and tgt is None and \
                body.stats and pyx.kind(body.stats[0]) == \
                'WithTargetAssignmentStatNode':
            tgt = body.stats[0].lhs
        return ast.With([ast.withitem(
            self.e(n.manager), self.store(self.e(tgt))
            if tgt is not None else None)], self.block(body))

    def s_GILStatNode(self, n):
        return ast.With([ast.withitem(self.nm('nogil'), None)],
                        self.block(n.body))

    def s_FromImportStatNode(self, n):
        m = n.module
        return ast.ImportFrom(str(m.module_name.value), [
            ast.alias(str(a), str(getattr(t, 'name', a)))
            for a, t in n.items], 0)

    def s_FromCImportStatNode(self, n):
        return ast.ImportFrom(str(n.module_name), [
            ast.alias(str(i[1]), str(i[2]) if i[2] else None)
            for i in n.imported_names], 0)

    def s_CImportStatNode(self, n):
        return ast.Import([ast.alias(str(n.module_name), str(
            n.as_name) if n.as_name else None)])

    def args(self, n):
        out = ast.arguments([], [], None, [], [], None, [])
        for a in n.args:
            nm = pyx.decl_name(a.declarator)[0]
            t = ctype(a.base_type, a.declarator)
            if not nm:
                nm, t = str(getattr(a.base_type, 'name', '?')), 'object'
            x = ast.arg(str(nm), None)
            x.ctype = t
            x.not_none = bool(getattr(a, 'not_none', False))
            d = getattr(a, 'default', None)
            if getattr(a, 'kw_only', False):
                out.kwonlyargs.append(x)
                out.kw_defaults.append(self.e(d) if d is not None else None)
            else:
                out.args.append(x)
                if d is not None:
                    out.defaults.append(self.e(d))
        if getattr(n, 'star_arg', None) is not None:
            out.vararg = ast.arg(str(n.star_arg.name), None)
        if getattr(n, 'starstar_arg', None) is not None:
            out.kwarg = ast.arg(str(n.starstar_arg.name), None)
        return out

    def fdef(self, name, argsof, n):
        body = self.block(n.body)
        doc = getattr(n, 'doc', None)
        if doc:
            body.insert(0, ast.Expr(ast.Constant(str(doc))))
        decos = [self.e(d.decorator) for d in (n.decorators or [])]
        f = ast.FunctionDef(name, self.args(argsof), body, decos, None)
        f.type_params = []
        return f

    def s_DefNode(self, n):
        return self.fdef(str(n.name), n, n)

    def s_CFuncDefNode(self, n):
        fd = pyx.func_declarator(n.declarator)
        f = self.fdef(pyx.decl_name(fd)[0], fd, n)
        f.ctype = ctype(n.base_type, n.declarator)
        return f

    def s_CClassDefNode(self, n):
        c = ast.ClassDef(str(n.class_name), [], [], self.block(n.body)
                         or [ast.Pass()], [])
        c.type_params = []
        c.cdef = True
        return c

    def s_PyClassDefNode(self, n):
        c = ast.ClassDef(str(n.name), [self.e(a) for a in getattr(
            n.bases, 'args', [])], [], self.block(n.body) or [ast.Pass()],
            [])
        c.type_params = []
        return c


def module(fname):
    """ast.Module of a .py or .pyx file of the package."""
    if fname in _cache:
        return _cache[fname]
    if fname.endswith('.py'):
        with open(os.path.join(PKG, fname), encoding='utf-8') as f:
            t = ast.parse(f.read())
    else:
        c = Conv(fname)
        t = ast.Module(c.body(pyx.parse(fname).body), [])
        ast.fix_missing_locations(t)
    _cache[fname] = t
    return t


def functions(fname):
    """[(qualified name, class or None, FunctionDef)]"""
    out = []

    def visit(body, cls):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((f'{cls.name}.{s.name}' if cls else s.name,
                            cls, s))
            elif isinstance(s, ast.ClassDef):
                visit(s.body, s)
            elif isinstance(s, (ast.If, ast.Try, ast.With)):
                visit(s.body, cls)
                visit(getattr(s, 'orelse', []), cls)
                for h in getattr(s, 'handlers', []):
                    visit(h.body, cls)
    visit(module(fname).body, None)
    return out
