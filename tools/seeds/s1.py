SEEDS = \
[{'id': 'b01',
  'property': 'C01',
  'edits': [('verktyg/http/basic.py',
             '            [self._validate_value(v) for (k, v) in value]\n'
             '            if isinstance(key, int):\n'
             '                self._list[key] = value[0]\n',
             '            if isinstance(key, int):\n                self._list[key] = value[0]\n')],
  'demo': '\n'
          'from verktyg.http import Headers\n'
          "h = Headers([('a', 'x'), ('b', 'y')])\n"
          'try:\n'
          "    h[0:1] = [('a', 'x\\r\\nSet-Cookie: evil=1')]\n"
          'except ValueError:\n'
          '    pass\n'
          "assert not any('\\n' in v for k, v in h), list(h)\n",
  'needs': 'slice or integer index assignment with a CR/LF value',
  'breaks': 'header injection through positional assignment'},
 {'id': 'b03',
  'property': 'C04',
  'edits': [('verktyg/datastructures.py',
             '                if isinstance(value, (tuple, list)):\n'
             '                    value = list(value)\n'
             '                else:\n'
             '                    value = [value]\n',
             '                if not isinstance(value, list):\n'
             '                    value = list(value) if isinstance(value, tuple) else [\n'
             '                        value]\n')],
  'demo': '\n'
          'from verktyg.datastructures import MultiDict\n'
          "src = {'a': ['1', '2']}\n"
          'm = MultiDict(src)\n'
          "m.add('a', '3')\n"
          "assert src == {'a': ['1', '2']}, src\n",
  'needs': 'construct from a plain dict of lists and mutate afterwards',
  'breaks': 'constructor aliases the lists of the source dict'},
 {'id': 'b06',
  'property': 'C06',
  'edits': [('verktyg/datastructures.py',
             '        modified = key in self\n'
             '        if default is _missing:\n'
             '            rv = super(UpdateDictMixin, self).pop(key)\n',
             '        modified = self.get(key) is not None\n'
             '        if default is _missing:\n'
             '            rv = super(UpdateDictMixin, self).pop(key)\n')],
  'demo': '\n'
          'from verktyg.datastructures import CallbackDict\n'
          'seen = []\n'
          "d = CallbackDict({'no-store': None}, lambda d: seen.append(dict(d)))\n"
          "d.pop('no-store')\n"
          'assert seen == [{}], seen\n',
  'needs': 'pop of a key whose value is None',
  'breaks': 'the callback is not told about the removal'},
 {'id': 'b08',
  'property': 'C11',
  'edits': [('verktyg/responses.py',
             "            environ['REQUEST_METHOD'] == 'HEAD' or\n"
             '            100 <= status < 200 or status in (204, 304)\n',
             "            environ['REQUEST_METHOD'] == 'HEAD' or\n"
             '            100 <= status <= 102 or status in (204, 304)\n')],
  'demo': '\n'
          'from verktyg.responses import Response\n'
          'from verktyg.test import create_environ\n'
          "r = Response('body', status=103)\n"
          'out = list(r(create_environ(), lambda s, h: None))\n'
          'assert out == [], out\n',
  'needs': 'an informational status above 102',
  'breaks': 'a body is sent with a 1xx status'},
 {'id': 'b09',
  'property': 'C11',
  'edits': [('verktyg/http/basic.py',
             '    headers[:] = [\n'
             '        (key, value) for key, value in headers\n'
             '        if not is_entity_header(key) or key.lower() in allowed\n'
             '    ]',
             '    headers[:] = [\n'
             '        (key, value) for key, value in headers\n'
             '        if not is_entity_header(key) or key in allowed\n'
             '    ]')],
  'demo': '\n'
          'from verktyg.responses import Response\n'
          'from verktyg.test import create_environ\n'
          "r = Response('body', status=304)\n"
          "r.headers['Expires'] = 'Thu, 01 Jan 2015 00:00:00 GMT'\n"
          'got = []\n'
          'list(r(create_environ(), lambda s, h: got.extend(h)))\n'
          "assert any(k.lower() == 'expires' for k, v in got), got\n",
  'needs': 'a 304 response with a conventionally capitalised Expires header',
  'breaks': '304 drops Expires / Content-Location'},
 {'id': 'b11',
  'property': 'C02',
  'edits': [('verktyg/datastructures.py',
             '    def popitemlist(self):\n'
             '        is_immutable(self)\n'
             '\n'
             '    def poplist(self, key):\n'
             '        is_immutable(self)\n'
             '\n'
             '    def setlist(self, key, new_list):\n'
             '        is_immutable(self)\n',
             '    def poplist(self, key):\n'
             '        is_immutable(self)\n'
             '\n'
             '    def setlist(self, key, new_list):\n'
             '        is_immutable(self)\n')],
  'demo': '\n'
          'from verktyg.datastructures import ImmutableMultiDict\n'
          "d = ImmutableMultiDict([('a', '1')])\n"
          'try:\n'
          '    d.popitemlist()\n'
          'except TypeError:\n'
          '    pass\n'
          "assert d['a'] == '1'\n",
  'needs': 'popitemlist() on an immutable multi dict',
  'breaks': 'immutable multi dict loses an item'},
 {'id': 'b04',
  'property': 'C05',
  'edits': [('verktyg/datastructures.py',
             '            key, buckets = dict.popitem(self)\n'
             '        except KeyError as e:\n'
             '            raise exceptions.BadRequestKeyError(str(e))\n'
             '        for bucket in buckets:\n'
             '            bucket.unlink(self)\n'
             '        return key, [x.value for x in buckets]\n',
             '            key, buckets = dict.popitem(self)\n'
             '        except KeyError as e:\n'
             '            raise exceptions.BadRequestKeyError(str(e))\n'
             '        buckets[0].unlink(self)\n'
             '        return key, [x.value for x in buckets]\n')],
  'demo': '\n'
          'from verktyg.datastructures import OrderedMultiDict\n'
          "d = OrderedMultiDict([('a', 1), ('a', 2)])\n"
          "assert d.popitemlist() == ('a', [1, 2])\n"
          'assert list(d.items(multi=True)) == [], list(d.items(multi=True))\n',
  'needs': 'popitemlist() of a key with several values',
  'breaks': 'removed values still show up in iteration while lookups deny them'},
 {'id': 'b05',
  'property': 'C05',
  'edits': [('verktyg/datastructures.py',
             '        for d in self.dicts:\n'
             '            rv.extend(d.getlist(key, type))\n'
             '        return rv\n',
             '        for d in self.dicts:\n'
             '            for value in d.getlist(key, type):\n'
             '                if value not in rv:\n'
             '                    rv.append(value)\n'
             '        return rv\n')],
  'demo': '\n'
          'from verktyg.datastructures import CombinedMultiDict, MultiDict\n'
          "c = CombinedMultiDict([MultiDict([('a', '1')]), MultiDict([('a', '1')])])\n"
          "assert c.getlist('a') == ['1', '1'], c.getlist('a')\n",
  'needs': 'the same value under the same key in two parts',
  'breaks': 'combined view loses duplicate values'},
 {'id': 'b07',
  'property': 'C07',
  'edits': [('verktyg/responses.py',
             "            if not cache_control and 'cache-control' in self.headers:\n"
             "                del self.headers['cache-control']\n"
             '            elif cache_control:\n',
             '            if cache_control:\n')],
  'demo': '\n'
          'from verktyg.responses import Response\n'
          "r = Response('x')\n"
          'r.cache_control.no_store = True\n'
          "assert 'cache-control' in r.headers\n"
          'r.cache_control.no_store = False\n'
          "assert 'cache-control' not in r.headers, r.headers\n",
  'needs': 'removing the last directive again',
  'breaks': 'stale Cache-Control header stays on the response'},
 {'id': 'b12',
  'property': 'C01',
  'edits': [('verktyg/http/basic.py',
             "        if u'\\n' in value or u'\\r' in value:\n",
             "        if u'\\r\\n' in value or value.endswith((u'\\r', u'\\n')) or any(\n"
             "                part[:1] not in (u' ', u'\\t') for part in "
             'value.splitlines()[1:]):\n')],
  'demo': '\n'
          'from verktyg.http import Headers\n'
          'h = Headers()\n'
          'try:\n'
          "    h.add('X', 'a\\n b')\n"
          'except ValueError:\n'
          '    pass\n'
          "assert not any('\\n' in v for k, v in h), list(h)\n",
  'needs': 'a value with an obs-fold style continuation line',
  'breaks': 'folded header lines are accepted again'}]
