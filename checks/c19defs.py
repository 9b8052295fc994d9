"""Class declarations used by C19 (a real source file: the refusal of a second
definition quotes the source lines of both classes)."""
from __future__ import annotations
import enum
from typing import Annotated, Any, Optional, Union
from jsonclasses import jsonclass, jsonenum, linkedby, linkto, types


def enum_E(g, v, ns):
    if v == 0:
        @jsonenum(class_graph=g)
        class E(enum.Enum):
            X = 1
            Y = 2
    else:
        @jsonenum(class_graph=g)
        class E(enum.Enum):
            Z = 1
            Y = 2
    return E


def ann_A(g, v, ns):
    @jsonclass(class_graph=g)
    class A:
        b: Optional[B]
        bs: Optional[list[B]]
        bd: Optional[dict[str, B]]
        e: Optional[E]
        es: Optional[list[E]]
        u: Optional[Union[B, str]]
        ul: Optional[list[B | str]]
        me: Optional[A]
    return A


def ann_B(g, v, ns):
    if v == 0:
        @jsonclass(class_graph=g)
        class B:
            n: Optional[int]
            e: Optional[E]
    else:
        @jsonclass(class_graph=g)
        class B:
            n: Optional[str]
            e: Optional[E]
    return B


def ann_P(g, v, ns):
    @jsonclass(class_graph=g)
    class P:
        id: int = types.int.primary
        cs: Annotated[Optional[list[C]], linkedby('p')]
    return P


def ann_C(g, v, ns):
    @jsonclass(class_graph=g)
    class C:
        id: int = types.int.primary
        p: Annotated[Optional[P], linkto]
    return C


def chain_A(g, v, ns):
    @jsonclass(class_graph=g)
    class A:
        b: Any = types.objof('B')
        bs: Any = types.listof('B')
        bd: Any = types.dictof(types.objof('B'))
        e: Any = types.enum('E')
        es: Any = types.listof(types.enum('E'))
        u: Any = types.union(['B', 'str'])
        ul: Any = types.listof(types.union(['B', str]))
        me: Any = types.objof('A')
    return A


def chain_B(g, v, ns):
    t = types.int if v == 0 else types.str

    @jsonclass(class_graph=g)
    class B:
        n: Any = t
        e: Any = types.enum('E')
    return B


def chain_P(g, v, ns):
    @jsonclass(class_graph=g)
    class P:
        id: int = types.int.primary
        cs: Any = types.listof('C').linkedby('p').nonnull
    return P


def chain_C(g, v, ns):
    @jsonclass(class_graph=g)
    class C:
        id: int = types.int.primary
        p: Any = types.objof('P').linkto
    return C


def shared_A(g, v, ns):
    """The very same types objects are used in both graphs."""
    s = ns.setdefault('shared', {
        'b': types.objof('B'), 'bs': types.listof('B'),
        'bd': types.dictof(types.objof('B')), 'e': types.enum('E'),
        'u': types.union(['B', 'str'])})

    @jsonclass(class_graph=g)
    class A:
        b: Any = s['b']
        bs: Any = s['bs']
        bd: Any = s['bd']
        e: Any = s['e']
        es: Any = types.listof(s['e'])
        u: Any = s['u']
        ul: Any = types.listof(s['u'])
        me: Any = types.objof('A')
    return A


def shared_B(g, v, ns):
    s = ns.setdefault('sharedB', {'e': types.enum('E')})
    t = types.int if v == 0 else types.str

    @jsonclass(class_graph=g)
    class B:
        n: Any = t
        e: Any = s['e']
    return B


def cross_X(g, v, ns):
    """A class of one graph which uses classes of another one."""
    clsb, clse = ns['B', 1 - v], ns['E', 1 - v]

    @jsonclass(class_graph=g)
    class X:
        b: Any = types.objof(clsb)
        e: Any = types.enum(clse)
        bs: Any = types.listof(clsb)
        u: Any = types.union([clsb, 'str'])
    return X


def iso_I(g, v, ns):
    t = ns.setdefault('iso', types.any.isobjof('B'))

    @jsonclass(class_graph=g)
    class I:
        b: Any = t
    return I


def again(name, kind):
    """A second definition of a name."""
    if kind == 'enum':
        class Tmp(enum.Enum):
            Q = 9
    else:
        class Tmp:
            q: Optional[int]
    Tmp.__name__ = name
    return Tmp


FAMILIES = {
    'ann': {'A': ann_A, 'B': ann_B, 'E': enum_E, 'P': ann_P, 'C': ann_C},
    'chain': {'A': chain_A, 'B': chain_B, 'E': enum_E, 'P': chain_P,
              'C': chain_C},
    'shared': {'A': shared_A, 'B': shared_B, 'E': enum_E},
}
