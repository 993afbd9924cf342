"""classes and loader factory for the check of custom loaders"""
import pickle
import numpy as np


class Base(object):
    def __init__(self, v):
        self.v = v


class Mid(Base):
    pass


class Leaf(Mid):
    pass


class Other(object):
    def __init__(self, v):
        self.v = v


class Both(Other, Base):
    pass


class LSub(list):
    pass


class LSub2(LSub):
    pass


CLS = dict(Base=Base, Mid=Mid, Leaf=Leaf, Other=Other, Both=Both, LSub=LSub, LSub2=LSub2, list=list)
DLOG, LLOG = [], []


def simple(obj):
    return isinstance(obj, list) and all(isinstance(i, (int, str)) for i in obj) or not isinstance(obj, list) and isinstance(obj.v, int)


class BadLoader(Exception):
    pass


def make(tag, kind):
    """(dump function, load function, container class)"""
    from hickle.helpers import PyContainer

    def dump_ds(obj, h_group, name, **kw):
        DLOG.append(tag)
        v = pickle.dumps(list(obj) if isinstance(obj, list) else obj.v)
        d = h_group.create_dataset(name, data=np.frombuffer(v, 'u1'), **kw)
        d.attrs['dtag'] = tag
        return d, ()

    def load_ds(h_node, base_type, py_obj_type):
        LLOG.append(tag)
        v = pickle.loads(bytes(h_node[()]))
        if issubclass(py_obj_type, list):
            o = py_obj_type(v)
        else:
            o = py_obj_type.__new__(py_obj_type)
            o.v = v
        if py_obj_type is not list:
            o.by = (h_node.attrs['dtag'], tag)
        return o

    def dump_gr(obj, h_group, name, **kw):
        DLOG.append(tag)
        g = h_group.create_group(name)
        g.attrs['dtag'] = tag
        return g, ((n, x, {'role': n}, kw) for n, x in (('payload', tuple(obj) if isinstance(obj, list) else obj.v), ('extra', 'text')))

    class Cont(PyContainer):
        def __init__(self, h5_attrs, base_type, object_type):
            super(Cont, self).__init__(h5_attrs, base_type, object_type, _content={})

        def append(self, name, item, h5_attrs):
            self._content[h5_attrs.get('role', name)] = item

        def convert(self):
            LLOG.append(tag)
            v = self._content['payload']
            if self._content['extra'] != 'text':
                raise BadLoader('extra')
            if issubclass(self.object_type, list):
                o = self.object_type(v)
            else:
                o = self.object_type.__new__(self.object_type)
                o.v = v
            if self.object_type is not list:
                o.by = (self._h5_attrs['dtag'], tag)
            return o
    def dump_ar(obj, h_group, name, **kw):
        # array with attributes
        DLOG.append(tag)
        a, at = obj.v
        d = h_group.create_dataset(name, data=a)
        d.attrs['dtag'] = tag
        d.attrs.update(at)
        return d, ()

    def load_ar(h_node, base_type, py_obj_type):
        LLOG.append(tag)
        o = py_obj_type.__new__(py_obj_type)
        o.v = (h_node[()], {k: v for k, v in h_node.attrs.items()})
        return o

    def dump_ag(obj, h_group, name, **kw):
        # group with attributes, attributes of the item
        DLOG.append(tag)
        a, at = obj.v
        g = h_group.create_group(name)
        g.attrs['dtag'] = tag
        g.attrs.update(at)
        return g, (('payload', a, at, kw), ('text', 'text', at, kw), ('list', [1, 'x'], at, kw))

    class ContA(PyContainer):
        def convert(self):
            LLOG.append(tag)
            o = self.object_type.__new__(self.object_type)
            o.v = self._content
            return o
    ContA.__module__ = dump_ds.__module__
    if kind == 'ar':
        return dump_ar, load_ar, None
    if kind == 'ag':
        return dump_ag, None, ContA
    Cont.__module__ = dump_ds.__module__
    if kind == 'ds':
        return dump_ds, load_ds, None
    if kind == 'dual':
        def dump_dual(obj, h_group, name, **kw):
            return (dump_ds if simple(obj) else dump_gr)(obj, h_group, name, **kw)
        return dump_dual, load_ds, Cont
    return dump_gr, None, Cont
