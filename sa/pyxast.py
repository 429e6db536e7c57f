"""Convert a Cython source file into a Python `ast.Module`, so that one interpreter
can analyse both.  C declarations become annotated assignments (`x: "cdecl" = v`) and
C typed arguments become annotated arguments; nothing is executed or compiled."""
import ast


class PyxError(Exception):
    pass


def _loc(node, n):
    try:
        node.lineno = n.pos[1]
        node.col_offset = n.pos[2]
    except Exception:
        node.lineno, node.col_offset = 1, 0
    node.end_lineno = node.lineno
    node.end_col_offset = node.col_offset
    return node


BINOPS = {'+': ast.Add, '-': ast.Sub, '*': ast.Mult, '/': ast.Div, '//': ast.FloorDiv, '%': ast.Mod,
          '**': ast.Pow, '@': ast.MatMult, '&': ast.BitAnd, '|': ast.BitOr, '^': ast.BitXor,
          '<<': ast.LShift, '>>': ast.RShift}
CMPS = {'==': ast.Eq, '!=': ast.NotEq, '<': ast.Lt, '<=': ast.LtE, '>': ast.Gt, '>=': ast.GtE,
        'is': ast.Is, 'is_not': ast.IsNot, 'in': ast.In, 'not_in': ast.NotIn, 'is not': ast.IsNot,
        'not in': ast.NotIn}


def type_str(bt, decl=None):
    if bt is None:
        return ''
    name = type(bt).__name__
    if name == 'CSimpleBaseTypeNode':
        s = '.'.join(list(getattr(bt, 'module_path', []) or []) + [str(bt.name)]) if bt.name else 'object'
    elif name == 'MemoryViewSliceTypeNode':
        s = type_str(bt.base_type_node) + '[' + ','.join(':' for _ in bt.axes) + ']'
    elif name == 'TemplatedTypeNode':
        nd = ''
        kw = getattr(bt, 'keyword_args', None)
        if kw is not None:
            for it in kw.key_value_pairs:
                if str(getattr(it.key, 'value', '')) == 'ndim':
                    nd = str(it.value.value)
        s = type_str(bt.base_type_node) + '[ndim=%s]' % nd
    elif name == 'CConstOrVolatileTypeNode':
        s = 'const ' + type_str(bt.base_type)
    else:
        s = 'object'
    d = decl
    while d is not None:
        if type(d).__name__ == 'CPtrDeclaratorNode':
            s += '*'
        d = getattr(d, 'base', None)
    return s


def decl_name(d):
    while d is not None:
        if type(d).__name__ == 'CNameDeclaratorNode':
            return d.name, d.default
        d = getattr(d, 'base', None)
    return None, None


class Conv:
    def module(self, t):
        return ast.Module(body=self.block(t.body), type_ignores=[])

    def block(self, n):
        if n is None:
            return []
        if type(n).__name__ == 'StatListNode':
            out = []
            for s in n.stats:
                out.extend(self.stmt(s))
            return out
        return self.stmt(n)

    def nonempty(self, b, n):
        return b or [_loc(ast.Pass(), n)]

    def stmt(self, n):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            raise PyxError('unsupported statement %s at %s' % (type(n).__name__, n.pos[1:]))
        r = m(n)
        return r if isinstance(r, list) else [r]

    def expr(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise PyxError('unsupported expression %s at %s' % (type(n).__name__, n.pos[1:]))
        return _loc(m(n), n)

    # statements -----------------------------------------------------------
    def s_StatListNode(self, n):
        return self.block(n)

    def s_CImportStatNode(self, n):
        name = n.module_name
        return _loc(ast.Import(names=[ast.alias(name='cimport.' + name if False else name, asname=n.as_name)]), n)

    def s_FromCImportStatNode(self, n):
        als = []
        for it in n.imported_names:
            als.append(ast.alias(name=it[1], asname=it[2] if len(it) > 2 else None))
        return _loc(ast.ImportFrom(module=n.module_name, names=als, level=0), n)

    def s_FromImportStatNode(self, n):
        mod = n.module.module_name.value
        level = getattr(n.module, 'level', 0) or 0
        if level < 0:
            level = 0
        als = []
        for name, target in n.items:
            als.append(ast.alias(name=str(name), asname=str(target.name) if target.name != name else None))
        return _loc(ast.ImportFrom(module=str(mod), names=als, level=level), n)

    def s_CTypeDefNode(self, n):
        return []

    def s_CStructOrUnionDefNode(self, n):
        return []

    def s_CEnumDefNode(self, n):
        return []

    def s_PassStatNode(self, n):
        return _loc(ast.Pass(), n)

    def s_BreakStatNode(self, n):
        return _loc(ast.Break(), n)

    def s_ContinueStatNode(self, n):
        return _loc(ast.Continue(), n)

    def s_CVarDefNode(self, n):
        out = []
        for d in n.declarators:
            if type(d).__name__ == 'CFuncDeclaratorNode':
                continue
            name, default = decl_name(d)
            ts = type_str(n.base_type, d)
            tgt = _loc(ast.Name(id=name, ctx=ast.Store()), n)
            ann = _loc(ast.Constant(value='c:' + ts), n)
            out.append(_loc(ast.AnnAssign(target=tgt, annotation=ann,
                                          value=self.expr(default) if default is not None else None, simple=1), n))
        return out

    def args(self, args, n):
        pos, defaults = [], []
        for a in args:
            name, _ = decl_name(a.declarator)
            ts = type_str(a.base_type, a.declarator)
            if not name:
                name = ts
                ts = 'object'
            pos.append(ast.arg(arg=str(name), annotation=_loc(ast.Constant(value='c:' + ts), n), lineno=n.pos[1],
                               col_offset=0, end_lineno=n.pos[1], end_col_offset=0))
            if a.default is not None:
                defaults.append(self.expr(a.default))
        return ast.arguments(posonlyargs=[], args=pos, vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                             defaults=defaults)

    def s_DefNode(self, n):
        body = self.nonempty(self.block(n.body), n)
        f = ast.FunctionDef(name=str(n.name), args=self.args(n.args, n), body=body, decorator_list=[], returns=None,
                            type_comment='def')
        f.type_params = []
        return _loc(f, n)

    def s_CFuncDefNode(self, n):
        d = n.declarator
        while type(d).__name__ != 'CFuncDeclaratorNode':
            d = d.base
        name, _ = decl_name(d.base)
        body = self.nonempty(self.block(n.body), n)
        f = ast.FunctionDef(name=str(name), args=self.args(d.args, n), body=body, decorator_list=[],
                            returns=_loc(ast.Constant(value='c:' + type_str(n.base_type, d)), n), type_comment='cdef')
        f.type_params = []
        return _loc(f, n)

    def s_SingleAssignmentNode(self, n):
        rn = type(n.rhs).__name__
        if rn == 'ImportNode':
            mod = str(n.rhs.module_name.value)
            return _loc(ast.Import(names=[ast.alias(name=mod, asname=str(n.lhs.name) if str(n.lhs.name) != mod else None)]), n)
        return _loc(ast.Assign(targets=[self.expr_store(n.lhs)], value=self.expr(n.rhs)), n)

    def s_CascadedAssignmentNode(self, n):
        return _loc(ast.Assign(targets=[self.expr_store(x) for x in n.lhs_list], value=self.expr(n.rhs)), n)

    def s_ParallelAssignmentNode(self, n):
        out = []
        for s in n.stats:
            out += self.stmt(s)
        return out

    def s_InPlaceAssignmentNode(self, n):
        return _loc(ast.AugAssign(target=self.expr_store(n.lhs), op=BINOPS[n.operator](), value=self.expr(n.rhs)), n)

    def expr_store(self, n):
        e = self.expr(n)
        for x in ast.walk(e):
            pass
        e.ctx = ast.Store()
        if isinstance(e, (ast.Tuple, ast.List)):
            for x in e.elts:
                x.ctx = ast.Store()
        return e

    def s_ExprStatNode(self, n):
        return _loc(ast.Expr(value=self.expr(n.expr)), n)

    def s_IfStatNode(self, n):
        orelse = self.block(n.else_clause) if n.else_clause is not None else []
        for c in reversed(n.if_clauses):
            orelse = [_loc(ast.If(test=self.expr(c.condition), body=self.nonempty(self.block(c.body), c), orelse=orelse), c)]
        return orelse

    def s_ForInStatNode(self, n):
        it = n.iterator
        seq = it.sequence
        return _loc(ast.For(target=self.expr_store(n.target), iter=self.expr(seq),
                            body=self.nonempty(self.block(n.body), n),
                            orelse=self.block(n.else_clause) if n.else_clause is not None else []), n)

    def s_WhileStatNode(self, n):
        return _loc(ast.While(test=self.expr(n.condition), body=self.nonempty(self.block(n.body), n),
                              orelse=self.block(n.else_clause) if n.else_clause is not None else []), n)

    def s_ReturnStatNode(self, n):
        return _loc(ast.Return(value=self.expr(n.value) if n.value is not None else None), n)

    def s_AssertStatNode(self, n):
        exc = getattr(n, 'exception', None)
        msg = None
        val = getattr(n, 'value', None)
        return _loc(ast.Assert(test=self.expr(n.condition), msg=None), n)

    def s_RaiseStatNode(self, n):
        return _loc(ast.Raise(exc=self.expr(n.exc_type) if n.exc_type is not None else None, cause=None), n)

    def s_GILStatNode(self, n):
        return self.block(n.body)

    def s_TryExceptStatNode(self, n):
        hs = []
        for c in n.except_clauses:
            typ = None
            if c.pattern:
                typ = self.expr(c.pattern[0]) if len(c.pattern) == 1 else _loc(
                    ast.Tuple(elts=[self.expr(p) for p in c.pattern], ctx=ast.Load()), c)
            hs.append(_loc(ast.ExceptHandler(type=typ, name=None, body=self.nonempty(self.block(c.body), c)), c))
        return _loc(ast.Try(body=self.nonempty(self.block(n.body), n), handlers=hs, orelse=self.block(n.else_clause),
                            finalbody=[]), n)

    def s_WithStatNode(self, n):
        return self.block(n.body)

    # expressions ------------------------------------------------------------
    def e_NameNode(self, n):
        return ast.Name(id=str(n.name), ctx=ast.Load())

    def e_AttributeNode(self, n):
        return ast.Attribute(value=self.expr(n.obj), attr=str(n.attribute), ctx=ast.Load())

    def e_IntNode(self, n):
        return ast.Constant(value=int(str(n.value).rstrip('LlUu'), 0))

    def e_FloatNode(self, n):
        return ast.Constant(value=float(n.value))

    def e_ImagNode(self, n):
        return ast.Constant(value=complex(0, float(n.value)))

    def e_BoolNode(self, n):
        return ast.Constant(value=bool(n.value))

    def e_NoneNode(self, n):
        return ast.Constant(value=None)

    def e_EllipsisNode(self, n):
        return ast.Constant(value=Ellipsis)

    def e_StringNode(self, n):
        return ast.Constant(value=str(n.value if getattr(n, 'unicode_value', None) is None else n.unicode_value))

    e_UnicodeNode = e_StringNode
    e_IdentifierStringNode = e_StringNode
    e_BytesNode = e_StringNode

    def e_JoinedStrNode(self, n):
        return ast.Constant(value='<fstring>')

    def e_TupleNode(self, n):
        return ast.Tuple(elts=[self.expr(x) for x in n.args], ctx=ast.Load())

    def e_ListNode(self, n):
        return ast.List(elts=[self.expr(x) for x in n.args], ctx=ast.Load())

    def e_DictNode(self, n):
        return ast.Dict(keys=[self.expr(i.key) for i in n.key_value_pairs],
                        values=[self.expr(i.value) for i in n.key_value_pairs])

    def e_SimpleCallNode(self, n):
        return ast.Call(func=self.expr(n.function), args=[self.expr(a) for a in n.args], keywords=[])

    def e_GeneralCallNode(self, n):
        args = [self.expr(a) for a in n.positional_args.args]
        kws = []
        if n.keyword_args is not None:
            for it in n.keyword_args.key_value_pairs:
                kws.append(ast.keyword(arg=str(it.key.value), value=self.expr(it.value)))
        return ast.Call(func=self.expr(n.function), args=args, keywords=kws)

    def e_IndexNode(self, n):
        return ast.Subscript(value=self.expr(n.base), slice=self.expr(n.index), ctx=ast.Load())

    def e_SliceNode(self, n):
        def f(x):
            return None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        return ast.Slice(lower=f(n.start), upper=f(n.stop), step=f(n.step))

    def e_SliceIndexNode(self, n):
        def f(x):
            return None if x is None or type(x).__name__ == 'NoneNode' else self.expr(x)
        sl = _loc(ast.Slice(lower=f(n.start), upper=f(n.stop), step=None), n)
        return ast.Subscript(value=self.expr(n.base), slice=sl, ctx=ast.Load())

    def _bin(self, n):
        return ast.BinOp(left=self.expr(n.operand1), op=BINOPS[n.operator](), right=self.expr(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_MatMultNode = \
        e_NumBinopNode = e_BitwiseOrNode = _bin

    def e_UnaryMinusNode(self, n):
        return ast.UnaryOp(op=ast.USub(), operand=self.expr(n.operand))

    def e_UnaryPlusNode(self, n):
        return ast.UnaryOp(op=ast.UAdd(), operand=self.expr(n.operand))

    def e_TildeNode(self, n):
        return ast.UnaryOp(op=ast.Invert(), operand=self.expr(n.operand))

    def e_NotNode(self, n):
        return ast.UnaryOp(op=ast.Not(), operand=self.expr(n.operand))

    def e_BoolBinopNode(self, n):
        return ast.BoolOp(op=ast.And() if n.operator == 'and' else ast.Or(),
                          values=[self.expr(n.operand1), self.expr(n.operand2)])

    def e_PrimaryCmpNode(self, n):
        ops = [CMPS[n.operator]()]
        comps = [self.expr(n.operand2)]
        c = n.cascade
        while c is not None:
            ops.append(CMPS[c.operator]())
            comps.append(self.expr(c.operand2))
            c = c.cascade
        return ast.Compare(left=self.expr(n.operand1), ops=ops, comparators=comps)

    def e_CondExprNode(self, n):
        return ast.IfExp(test=self.expr(n.test if hasattr(n, 'test') else n.condition), body=self.expr(n.true_val),
                         orelse=self.expr(n.false_val))

    def e_TypecastNode(self, n):
        ts = type_str(n.base_type, n.declarator)
        return ast.Call(func=_loc(ast.Name(id='__ccast__', ctx=ast.Load()), n),
                        args=[_loc(ast.Constant(value=ts), n), self.expr(n.operand)], keywords=[])

    def e_AmpersandNode(self, n):
        return self.expr(n.operand)

    def e_ComprehensionNode(self, n):
        loop, app = n.loop, n.append
        gens = []
        cur = loop
        elt = None
        while True:
            tn = type(cur).__name__
            if tn == 'ForInStatNode':
                gens.append(ast.comprehension(target=self.expr_store(cur.target), iter=self.expr(cur.iterator.sequence),
                                              ifs=[], is_async=0))
                cur = cur.body
            elif tn == 'IfStatNode':
                gens[-1].ifs.append(self.expr(cur.if_clauses[0].condition))
                cur = cur.if_clauses[0].body
            elif tn == 'StatListNode':
                cur = cur.stats[0]
            else:
                elt = self.expr(cur.expr)
                break
        return ast.ListComp(elt=elt, generators=gens)

    def e_GeneratorExpressionNode(self, n):
        raise PyxError('generator expression')


def parse_pyx(src, filename):
    from Cython.Compiler import Errors
    from Cython.Compiler.TreeFragment import parse_from_strings
    Errors.init_thread() if hasattr(Errors, 'init_thread') else None
    t = parse_from_strings('m', src)
    mod = Conv().module(t)
    ast.fix_missing_locations(mod)
    return mod
