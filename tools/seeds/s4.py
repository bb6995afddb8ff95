"""Planted bugs, fourth batch: containers and header structures."""
SEEDS = []
TRY = '''
def raises(exc, f, *a, **k):
    try:
        f(*a, **k)
    except exc:
        return True
    return False
'''


def B(id, prop, file, old, new, demo, needs, breaks):
    SEEDS.append({'id': id, 'property': prop, 'edits': [(file, old, new)],
                  'demo': TRY + demo, 'needs': needs, 'breaks': breaks})


D = 'verktyg/datastructures.py'
H = 'verktyg/http/basic.py'

B('d02c', 'C02', D, '''    def __copy__(self):
        return self


class CallbackDict''', '''    def __copy__(self):
        return self

    def popitem(self):
        if not self:
            is_immutable(self)
        return OrderedMultiDict.popitem(self)


class CallbackDict''', '''
from verktyg.datastructures import ImmutableOrderedMultiDict
d = ImmutableOrderedMultiDict([('a', 1)])
assert raises(TypeError, d.popitem)
assert len(d) == 1
''', 'popitem on a non-empty dictionary', 'an item is removed')

B('d04b', 'C04', D, '''            default_list = list(default_list or ())
            dict.__setitem__(self, key, default_list)
''', '''            default_list = default_list or []
            dict.__setitem__(self, key, default_list)
''', '''
from verktyg.datastructures import MultiDict
l = [1]
d = MultiDict()
d.setlistdefault('a', l)
l.append(2)
assert d.getlist('a') == [1]
''', 'a default list changed later', 'the contents change')

B('d04c', 'C04', D, '''    def deepcopy(self, memo=None):
        """Return a deep copy of this object."""
        return self.__class__(deepcopy(self.to_dict(flat=False), memo))
''', '''    def deepcopy(self, memo=None):
        """Return a deep copy of this object."""
        rv = self.copy()
        for key, values in rv.lists():
            values[:] = deepcopy(values, memo)
        return rv
''', '''
from verktyg.datastructures import MultiDict
l = [1]
d = MultiDict([('a', l)])
e = d.deepcopy()
l.append(2)
assert e['a'] == [1], e
''', 'a mutable value and a deep copy', 'the copy shares the value')

B('d04d', 'C04', D, '''    def lists(self):
        rv = {}
        for d in self.dicts:
            for key, values in d.lists():
                rv.setdefault(key, []).extend(values)
        return rv.items()
''', '''    def lists(self):
        rv = {}
        for d in self.dicts:
            for key, values in dict.items(d):
                if key in rv:
                    rv[key] = rv[key] + values
                else:
                    rv[key] = values
        return rv.items()
''', '''
from verktyg.datastructures import CombinedMultiDict, MultiDict
c = CombinedMultiDict([MultiDict([('a', 1)]), MultiDict([('b', 1)])])
dict(c.lists())['a'].append(2)
assert c.getlist('a') == [1]
''', 'a list from lists() of a combined dictionary', 'the part changes')

B('d05b', 'C05', D, '''        for key, values in self.lists():
            if other.getlist(key) != values:
                return False
        return True
''', '''        for key, value in self.items():
            if key not in other or other[key] != value:
                return False
        return True
''', '''
from verktyg.datastructures import OrderedMultiDict, MultiDict
a = OrderedMultiDict([('a', 1), ('a', 2)])
b = MultiDict([('a', 1), ('a', 3)])
assert not (a == b)
''', 'dictionaries that differ in a second value', 'compare equal')

B('d05c', 'C05', D, '''                if type is not None:
                    try:
                        return type(d[key])
                    except ValueError:
                        continue
                return d[key]
        return default
''', '''                if type is not None:
                    try:
                        return type(d[key])
                    except ValueError:
                        break
                return d[key]
        return default
''', '''
from verktyg.datastructures import CombinedMultiDict, MultiDict
c = CombinedMultiDict([MultiDict([('a', 'x')]), MultiDict([('a', '1')])])
assert c.get('a', type=int) == 1
''', 'a first part whose value cannot be converted', 'default returned')

B('d05e', 'C05', D, '''        if key not in self:
            self[key] = default
        else:
            default = self[key]
        return default
''', '''        value = self.get(key)
        if value is None:
            self[key] = value = default
        return value
''', '''
from verktyg.datastructures import MultiDict
d = MultiDict([('a', None), ('a', 2)])
assert d.setdefault('a', 5) is None
assert d.getlist('a') == [None, 2]
''', 'a present key whose first value is None', 'its values are replaced')

B('d06e', 'C06', H, '''        old = self._headers[idx]
        self._set.remove(old.lower())
        self._headers[idx] = value
        self._set.add(value.lower())
''', '''        old = self._headers[idx]
        self._headers[idx] = value
        self._set.add(value.lower())
        self._set.discard(old.lower())
''', '''
from verktyg.http import HeaderSet
h = HeaderSet(['foo', 'bar'])
h[0] = 'Foo'
assert 'foo' in h and len(h) == 2
''', 'an entry replaced by itself in another case', 'entry not found')

B('d01a', 'C01', H, '''            value = [(k, unicodify_header_value(v)) for (k, v) in value]
            [self._validate_value(v) for (k, v) in value]
            if isinstance(key, int):
''', '''            value = [(k, unicodify_header_value(v)) for (k, v) in value]
            for _, item in value[:1]:
                self._validate_value(item)
            if isinstance(key, int):
''', '''
from verktyg.http import Headers
h = Headers([('a', 'b')])
assert raises(ValueError, h.__setitem__, slice(0, 1),
              [('a', 'b'), ('c', 'd\\nSet-Cookie: x')])
''', 'slice assignment with a bad second value', 'header injection')

B('d36a', 'C36', H, '''        self._list[idx + 1:] = [t for t in listiter if t[0].lower() != ikey]
''', '''        self._list[idx + 1:] = [t for t in listiter if t[0] != old_key]
''', '''
from verktyg.http import Headers
h = Headers([('A', '1'), ('a', '2')])
h.set('a', '3')
assert h.getlist('a') == ['3'], h
''', 'two spellings of one name', 'an old value survives')

B('d36b', 'C36', H, '''            rv = self[key]
            self.remove(key)
        except KeyError:
''', '''            rv = self[key]
            self._list.remove((key, rv))
        except (KeyError, ValueError):
''', '''
from verktyg.http import Headers
h = Headers([('A', '1'), ('B', '2'), ('A', '3')])
assert h.pop('A') == '1'
assert 'a' not in h
h = Headers([('A', '1')])
assert h.pop('a', None) == '1'
''', 'several values or another spelling', 'values survive pop')

B('d36c', 'C36', H, '''        try:
            return type(rv)
        except ValueError:
            return default

    def getlist''', '''        try:
            return type(rv) or default
        except ValueError:
            return default

    def getlist''', '''
from verktyg.http import Headers
h = Headers([('Content-Length', '0')])
assert h.get('content-length', type=int) == 0
assert h.get('content-length', 7, type=int) == 0
''', 'a converted value that is falsy', 'the default is returned')

B('d36d', 'C36', H, '''                if type is not None:
                    try:
                        v = type(v)
                    except ValueError:
                        continue
                result.append(v)
''', '''                if type is not None:
                    try:
                        v = type(v)
                    except ValueError:
                        break
                result.append(v)
''', '''
from verktyg.http import Headers
h = Headers([('a', '1'), ('a', 'x'), ('a', '3')])
assert h.getlist('a', type=int) == [1, 3]
''', 'a value that cannot be converted before others', 'later values lost')
