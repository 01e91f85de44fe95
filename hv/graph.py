"""Deep comparison of two object graphs the way pickle sees them: same classes, same reduced state, same sharing."""
import types

import numpy as np

from . import eq

NAMED = (type, types.FunctionType, types.BuiltinFunctionType, types.MethodDescriptorType, type(Ellipsis), type(NotImplemented), np.ufunc)


def same(a, b, where='', memo=None):
    """memo: id(object of a) -> (a, b) and the reverse; keeps every visited object alive"""
    memo = {} if memo is None else memo
    if isinstance(a, NAMED) or a is None or isinstance(a, bool):
        if a is not b:
            eq.fail(where, a, b, 'not the same')
        return
    if type(a) is not type(b):
        eq.fail(where, a, b, 'type differs')
    if type(a) in (int, float, complex, str, bytes) or isinstance(a, (np.generic, np.dtype)):
        return eq.same(a, b, where)
    if ('a', id(a)) in memo or ('b', id(b)) in memo:
        x, y = memo.get(('a', id(a))), memo.get(('b', id(b)))
        # empty and constant tuples or frozensets may be shared by the interpreter
        if x is not None and y is not None and x[1] is b and y[0] is a:
            return
        if not isinstance(a, (tuple, frozenset)):
            eq.fail(where, a, b, 'sharing differs')
    memo['a', id(a)] = memo['b', id(b)] = (a, b)
    if isinstance(a, np.ndarray) and type(a) is np.ndarray and a.dtype.kind != 'O':
        return eq.same_array(a, b, where)
    if type(a) is np.ndarray:
        if a.shape != b.shape or a.dtype != b.dtype:
            eq.fail(where, a, b, 'array differs')
        return items(a.ravel().tolist(), b.ravel().tolist(), where, memo)
    if type(a) in (list, tuple):
        return items(a, b, where, memo)
    if type(a) is dict:
        if len(a) != len(b):
            eq.fail(where, a, b, 'number of keys differs')
        return items(list(a.items()), list(b.items()), where, memo)
    if type(a) in (set, frozenset):
        if len(a) != len(b):
            eq.fail(where, a, b, 'size differs')
        rest = {i: i for i in b}
        for i in a:
            if i not in rest:
                eq.fail(where, a, b, 'item %r missing' % (i,))
            same(i, rest.pop(i), where + '{}', memo)
        return
    ra, rb = a.__reduce_ex__(4), b.__reduce_ex__(4)
    if isinstance(ra, str) or isinstance(rb, str):
        if ra != rb or a is not b:
            eq.fail(where, a, b, 'global differs')
        return
    # iterators of list and dict items have to be expanded
    ra = [list(x) if i > 2 and x is not None else x for i, x in enumerate(ra)]
    rb = [list(x) if i > 2 and x is not None else x for i, x in enumerate(rb)]
    memo[id(ra)] = ra, rb
    items(ra, rb, where + '.<reduced>', memo)


def items(a, b, where, memo):
    if len(a) != len(b):
        eq.fail(where, a, b, 'length differs')
    for i, (x, y) in enumerate(zip(a, b)):
        same(x, y, '%s[%d]' % (where, i), memo)
