"""Which harnesses decide which property, and within what bounds."""


class Spec(object):
    def __init__(self, target, quick, thorough=None, bounds='', reach=('end',)):
        self.module, self.func = target.split(':')
        self.quick = quick
        self.thorough = quick if thorough is None else thorough
        self.bounds = bounds
        self.reach = reach


COMMON_ASSUMPTIONS = [
    'The package runs on the interpreter of the build (PyPy 3.9); its pure-Python decimal and datetime modules are '
    'encoded from their sources (datetime and timedelta arithmetic by exact integer replacements), other library '
    'calls by models in symion/rt.py and symion/shims.py. Witness inputs of explored paths are replayed on the real '
    'package to check the encoding.',
    'Nothing is claimed outside the stated bounds.',
]

LEAVES = ['int', 'null', 'symbol', 'empty', 'nullstruct']
PRECISIONS = [0, 1, 2, 3, 4]

CHECKS = {}

CHECKS['C01'] = {'specs': [
    Spec('binary_scalars:int_roundtrip', [{'bits': 130}, {'bits': 20, 'base': 1 << 600}],
         [{'bits': 400}, {'bits': 8, 'base': 1 << 1024}, {'bits': 40, 'base': 1 << 1032}],
         'all integers of up to `bits` bits, added to `base`'),
]}

CHECKS['C02'] = {'specs': [
    Spec('binary_scalars:decimal_roundtrip',
         [{'digits': 12, 'exp': 40}, {'digits': 4, 'exp': 9, 'context': 'small'},
          {'digits': 6, 'exp': 9, 'context': 'up'}, {'digits': 5, 'exp': 5, 'context': 'traps'},
          {'digits': 3, 'exp': 3000000}, {'digits': 20, 'exp': 4}, {'digits': 5, 'exp': 30, 'base': 10 ** 60},
          {'digits': 6, 'exp': 4, 'base': 10 ** 70 // 3 // 10 ** 6 * 10 ** 6, 'context': 'small'}],
         [{'digits': 30, 'exp': 100}, {'digits': 12, 'exp': 40, 'context': 'small'},
          {'digits': 12, 'exp': 40, 'context': 'up'}, {'digits': 12, 'exp': 20, 'context': 'traps'},
          {'digits': 4, 'exp': 3000000}, {'digits': 5, 'exp': 3, 'base': 10 ** 500},
          {'digits': 6, 'exp': 40, 'base': 10 ** 70 // 3 // 10 ** 6 * 10 ** 6}],
         'coefficients of up to `digits` digits, added to `base`, exponents -exp..exp, both signs, the named decimal context'),
]}

CHECKS['C03'] = {'specs': [
    Spec('binary_scalars:float_roundtrip', [{}], None, 'all 64-bit patterns'),
    Spec('binary_decode:octets', [{'n': k, 'lo': t, 'hi': t} for t, k in
                                  ((0x40, 1), (0x44, 5), (0x48, 9))], None,
         'all octets after the type octet', ('ok',)),
    Spec('binary_decode:octets', [{'n': 2, 'lo': 0x40, 'hi': 0x4f}, {'n': 10, 'lo': 0x41, 'hi': 0x43, 'lo2': 0x0f, 'hi2': 0x0f}],
         [{'n': 2, 'lo': 0x40, 'hi': 0x4f}, {'n': 3, 'lo': 0x40, 'hi': 0x4f}],
         'all type octets of floats', ()),
]}


def _ts(f):
    out = [{'precision': p, 'offset_kind': 'none'} for p in PRECISIONS]
    out += [{'precision': 3, 'offset_kind': k} for k in ('zero', 'any')]
    out += [{'precision': 4, 'offset_kind': 'none', 'fraction_digits': k} for k in f]
    return out + [{'precision': 4, 'offset_kind': 'zero', 'fraction_digits': f[-1]}]


CHECKS['C04'] = {'specs': [
    Spec('binary_scalars:timestamp_roundtrip', _ts((1, 3)) + [{'precision': 4, 'offset_kind': 'any'}],
         _ts((1, 3, 6, 9)) + [{'precision': 4, 'offset_kind': 'any', 'fraction_digits': 2}],
         'all dates, times and offsets; fractions of exactly `fraction_digits` decimal places'),
    Spec('text_data:datetime_roundtrip',
         [{'kind': 'none', 'binary': True}, {'kind': 'zero', 'binary': True},
          {'kind': 'stdlib', 'binary': True, 'micro': False}],
         [{'kind': k, 'binary': True} for k in ('none', 'zero', 'stdlib', 'any')],
         'plain datetimes: all dates, times and microseconds'),
]}

_LONG = (255, 256, 4095, 8191, 16380, 16382, 16383, 16384, 65535, 65536)
_LONGER = list(range(250, 260)) + list(range(16378, 16388)) + list(range(65530, 65540)) + [2097150, 2097151, 2097152]
CHECKS['C05'] = {'specs': [
    Spec('text_data:string_roundtrip', [{'n': n, 'binary': True} for n in (0, 1, 2)],
         [{'n': n, 'binary': True} for n in (0, 1, 2, 3)], 'all texts of n characters'),
    Spec('text_data:symbol_roundtrip', [{'n': n, 'binary': True} for n in (0, 1, 2)] +
         [{'n': 1, 'binary': True, 'where': w} for w in ('list', 'struct')],
         [{'n': n, 'binary': True} for n in (0, 1, 2, 3)], 'all texts of n characters'),
    Spec('text_data:lob_roundtrip', [{'n': n, 'binary': True, 'kind': k} for n in (0, 1, 4) for k in ('clob', 'blob')],
         None, 'all octets'),
    Spec('binary_data:string_roundtrip', [{'n': 1, 'filler': f} for f in (10, 11, 12, 13, 123, 124, 125, 126, 127) + _LONG],
         [{'n': 1, 'filler': f} for f in list(range(8, 18)) + list(range(120, 132)) + _LONGER],
         'a text of `filler` a and any n characters'),
    Spec('binary_data:lob_roundtrip', [{'n': 1, 'filler': f} for f in (12, 13, 14, 126, 127, 128) + _LONG],
         [{'n': 1, 'filler': f} for f in list(range(10, 16)) + list(range(125, 130)) + _LONGER],
         '`filler` octets and any n octets'),
    Spec('binary_data:symbol_roundtrip', [{'n': 1, 'filler': f} for f in (12, 13, 126) + _LONG],
         [{'n': 1, 'filler': f} for f in list(range(8, 18)) + list(range(120, 132)) + _LONGER], 'symbols of such texts'),
]}

CHECKS['C06'] = {'specs': [
    Spec('trees:roundtrip',
         [{'depth': 2, 'width': 2, 'leaves': ['int'], 'anns': 1, 'fields': 2, 'budget': 4},
          {'depth': 2, 'width': 1, 'leaves': LEAVES, 'anns': 3, 'fields': 2},
          {'depth': 1, 'width': 2, 'leaves': ['int', 'nullstruct'], 'anns': 2, 'fields': 4},
          {'depth': 4, 'width': 1, 'leaves': ['int'], 'anns': 2, 'fields': 1}],
         [{'depth': 2, 'width': 2, 'leaves': ['int', 'null'], 'anns': 2, 'fields': 2, 'budget': 6},
          {'depth': 3, 'width': 2, 'leaves': ['int'], 'anns': 1, 'fields': 2, 'budget': 7},
          {'depth': 2, 'width': 1, 'leaves': LEAVES + ['text'], 'anns': 3, 'fields': 4},
          {'depth': 1, 'width': 3, 'leaves': ['int', 'nullstruct'], 'anns': 2, 'fields': 4}],
         'trees of the given depth and width with the given leaves, numbers of annotation lists and field names'),
    Spec('trees:roundtrip', [{'depth': 1, 'width': 1, 'leaves': ['int', 'nullstruct'], 'anns': 4, 'fields': 1}], None,
         'trees of the given depth and width with repeated annotations'),
    Spec('trees:deep', [{'levels': 4}], [{'levels': n} for n in (3, 5, 6)],
         'that many containers within each other, of all types'),
    Spec('trees:sized', [{'lo': 6, 'hi': 16, 'levels': 2}, {'lo': 118, 'hi': 130, 'levels': 1}, {'lo': 16374, 'hi': 16386, 'levels': 1},
                        {'lo': 65532, 'hi': 65536, 'levels': 1}],
         [{'lo': 0, 'hi': 20, 'levels': 2}, {'lo': 100, 'hi': 132, 'levels': 2},
          {'lo': 16370, 'hi': 16390, 'levels': 1}, {'lo': 65520, 'hi': 65540, 'levels': 1},
          {'lo': 2097138, 'hi': 2097154, 'levels': 1}],
         'a string of lo..hi octets inside `levels` containers'),
    Spec('trees:many_annotations', [{'lo': 125, 'hi': 130}, {'lo': 116, 'hi': 119, 'distinct': True}],
         [{'lo': 0, 'hi': 20}, {'lo': 100, 'hi': 140}, {'lo': 100, 'hi': 130, 'distinct': True}],
         'a value with lo..hi annotations'),
    Spec('text_data:name_roundtrip', [{'n': n, 'role': r, 'binary': True} for n in (0, 1)
                                      for r in ('field', 'annotation', 'annotation2', 'null')],
         [{'n': n, 'role': r, 'binary': True} for n in (0, 1, 2) for r in ('field', 'annotation', 'null')],
         'all names of n characters'),
    Spec('text_data:null_or_bool', [{'binary': True}], None, 'all typed nulls and booleans'),
]}

CHECKS['C07'] = {'specs': [
    Spec('text_scalars:int_roundtrip', [{'digits': k} for k in (1, 2, 5, 19, 20, 30)],
         [{'digits': k} for k in range(1, 60)], 'all integers of that many digits'),
    Spec('text_scalars:decimal_roundtrip', [{'digits': k, 'exp': 12} for k in (1, 2, 4)] + [{'digits': 9, 'exp': 3},
                                                                                              {'digits': 40, 'exp': 3}],
         [{'digits': k, 'exp': 40} for k in (1, 2, 4, 9, 18, 40)], 'coefficients of that many digits, exponents -exp..exp'),
    Spec('text_data:null_or_bool', [{}], None, 'all typed nulls and booleans'),
    Spec('text_data:special_float', [{}], None, 'nan and infinities'),
    Spec('text_data:float_roundtrip',
         [{'whole': w, 'frac': f, 'exp': e, 'neg': s} for s in (False, True)
          for w, f, e in ((1, 1, None), (3, 2, None), (1, 0, '+16'), (1, 4, '-05'), (1, 2, '-300'), (9, 1, None),
                          (1, 3, '+123'))],
         [{'whole': w, 'frac': f, 'exp': e, 'neg': s} for s in (False, True)
          for w, f, e in [(w, f, None) for w in range(1, 12) for f in (1, 2, 3)] +
          [(1, f, e) for f in (0, 1, 2, 8, 14) for e in ('+16', '-05', '-300', '+123', '+99')]],
         'floats whose repr() has that many digits before and after the point and that exponent'),
    Spec('text_data:hard_float', [{}], None, 'the floats listed there'),
    Spec('text_data:nonfinite_decimal', [{}], None, 'infinities and NaNs', ('end',)),
]}

CHECKS['C08'] = {'specs': [
    Spec('text_scalars:timestamp_roundtrip',
         _ts((1, 3, 6)) + [{'precision': 4, 'offset_kind': 'any'}],
         _ts((1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 30)) + [{'precision': 4, 'offset_kind': 'any', 'fraction_digits': 3}],
         'all dates, times and offsets; fractions of exactly `fraction_digits` decimal places'),
    Spec('text_data:datetime_roundtrip', [{'kind': k} for k in ('none', 'zero', 'stdlib', 'any')], None,
         'plain datetimes: all dates, times, microseconds and offsets'),
]}

CHECKS['C09'] = {'specs': [
    Spec('text_data:string_roundtrip', [{'n': n} for n in (0, 1, 2)] + [{'n': 3, 'alphabet': 'printable'}],
         [{'n': n} for n in (0, 1, 2, 3)] + [{'n': 4, 'alphabet': 'ascii'}], 'all texts of n characters'),
    Spec('text_data:symbol_roundtrip',
         [{'n': n} for n in (0, 1, 2)] + [{'n': 4, 'alphabet': 'printable', 'where': w} for w in ('top', 'sexp')] +
         [{'n': 1, 'where': w} for w in ('list', 'sexp', 'sexp2', 'struct')] +
         [{'n': 2, 'where': 'sexp2', 'alphabet': 'printable'}, {'n': 2, 'alphabet': 'printable', 'prefix': u'$'},
          {'n': 1, 'alphabet': 'printable', 'prefix': u'$ion_1_'},
          {'n': 2, 'alphabet': 'printable', 'prefix': u'fals'}, {'n': 2, 'alphabet': 'printable', 'prefix': u'null.'}],
         [{'n': n} for n in (0, 1, 2, 3)] + [{'n': 5, 'alphabet': 'printable', 'where': w} for w in ('top', 'sexp')] +
         [{'n': 2, 'where': w} for w in ('list', 'sexp', 'sexp2', 'struct')] +
         [{'n': 4, 'alphabet': 'printable', 'prefix': u'$'},
          {'n': 3, 'alphabet': 'printable', 'prefix': u'$ion_1_'},
          {'n': 4, 'alphabet': 'printable', 'prefix': u'null.'}],
         'all texts of n characters of the alphabet after the prefix'),
    Spec('text_data:name_roundtrip',
         [{'n': n, 'role': r} for n in (0, 1) for r in ('field', 'annotation', 'annotation2', 'null')] +
         [{'n': 3, 'role': r, 'alphabet': 'printable'} for r in ('field', 'annotation')] +
         [{'n': 1, 'role': r, 'prefix': u'$', 'alphabet': 'printable'} for r in ('field', 'annotation', 'null')] +
         [{'n': 1, 'role': r, 'prefix': u'nul', 'alphabet': 'printable'} for r in ('field', 'annotation')] +
         [{'n': 1, 'role': 'field', 'indent': u'  '}],
         [{'n': n, 'role': r} for n in (0, 1, 2) for r in ('field', 'annotation', 'annotation2', 'null')] +
         [{'n': 4, 'role': r, 'alphabet': 'printable'} for r in ('field', 'annotation')] +
         [{'n': 3, 'role': r, 'prefix': u'$', 'alphabet': 'printable'} for r in ('field', 'annotation', 'null')],
         'all names of n characters'),
    Spec('text_data:lob_roundtrip',
         [{'n': n, 'kind': 'clob'} for n in (0, 1, 2)] + [{'n': n, 'kind': 'blob'} for n in (0, 1, 2, 3, 4)] +
         [{'n': 1, 'kind': k, 'where': w} for k in ('clob', 'blob') for w in ('sexp', 'struct')],
         [{'n': n, 'kind': 'clob'} for n in (0, 1, 2, 3)] + [{'n': n, 'kind': 'blob'} for n in range(10)] +
         [{'n': 2, 'kind': k, 'where': w} for k in ('clob', 'blob') for w in ('sexp', 'struct')],
         'all octet sequences of n octets'),
]}

INDENTS = [None, u'', u' ', u'\t']
CHECKS['C10'] = {'specs': [
    Spec('trees:roundtrip',
         [{'depth': 2, 'width': 2, 'leaves': ['int'], 'anns': 1, 'fields': 2, 'budget': 3, 'binary': False,
           'indents': [None, u' ']},
          {'depth': 2, 'width': 1, 'leaves': LEAVES + ['operator'], 'anns': 2, 'fields': 2, 'binary': False,
           'indents': [None, u'  ']},
          {'depth': 1, 'width': 2, 'leaves': ['operator', 'int', 'nullstruct'], 'anns': 2, 'fields': 3,
           'binary': False, 'indents': [None, u'\t']}],
         [{'depth': 2, 'width': 2, 'leaves': ['int', 'operator'], 'anns': 1, 'fields': 2, 'budget': 6, 'binary': False,
           'indents': INDENTS},
          {'depth': 3, 'width': 2, 'leaves': ['int'], 'anns': 1, 'fields': 2, 'budget': 6, 'binary': False,
           'indents': INDENTS},
          {'depth': 2, 'width': 1, 'leaves': LEAVES + ['operator', 'text'], 'anns': 3, 'fields': 4, 'binary': False,
           'indents': [None, u'  ']},
          {'depth': 1, 'width': 3, 'leaves': ['operator', 'int', 'nullstruct'], 'anns': 2, 'fields': 3,
           'binary': False, 'indents': [None, u'\t']}],
         'trees of the given depth and width, all listed indents'),
    Spec('trees:roundtrip',
         [{'depth': 1, 'width': 1, 'leaves': ['int', 'nullstruct'], 'anns': 4, 'fields': 1, 'binary': False,
           'indents': [None, u' ']}], None, 'trees of the given depth and width with repeated annotations'),
    Spec('trees:deep', [{'levels': 4, 'binary': False, 'indents': [None, u' ']}],
         [{'levels': n, 'binary': False, 'indents': [i]} for n in (3, 5, 6) for i in (None, u'', u'\t')],
         'that many containers within each other, of all types'),
    Spec('trees:stream',
         [{'depth': 1, 'width': 1, 'leaves': ['symbol'], 'n': 2, 'binary': False, 'indents': [None, u' ']},
          {'depth': 0, 'width': 1, 'leaves': LEAVES, 'n': 2, 'binary': False, 'indents': [None, u' '], 'anns': 2}],
         [{'depth': 1, 'width': 2, 'leaves': ['int', 'symbol', 'operator', 'null'], 'n': 2, 'binary': False,
           'indents': INDENTS, 'anns': 2},
          {'depth': 0, 'width': 1, 'leaves': ['int', 'symbol', 'operator', 'null', 'text'], 'n': 3, 'binary': False,
           'indents': INDENTS, 'anns': 2}],
         'streams of n trees'),
]}

_D1 = [{'n': 1}]


def _ln(k):
    return {'lo2': 0x80 + k, 'hi2': 0x80 + k}


_D = [(0x21, 2, {}), (0x22, 3, {}), (0x24, 5, {}), (0x28, 9, {}), (0x2d, 14, {}), (0x2e, 6, _ln(4)), (0x2e, 2, _ln(0)),
      (0x31, 2, {}), (0x32, 3, {}), (0x33, 4, {}), (0x3e, 5, _ln(3)),
      (0x44, 5, {}), (0x48, 9, {}),
      (0x51, 2, {}), (0x52, 3, {}), (0x53, 4, {}), (0x54, 5, {}), (0x56, 7, {}),
      (0x62, 3, {}), (0x63, 4, {}), (0x64, 5, {}), (0x65, 6, {}), (0x66, 7, {}),
      (0x71, 2, {}), (0x74, 5, {}), (0x81, 2, {}), (0x82, 3, {}), (0x84, 5, {}), (0x8e, 4, _ln(2)), (0x8e, 3, _ln(2)),
      (0x92, 3, {}), (0xa2, 3, {}), (0xae, 4, _ln(2)), (0xae, 2, _ln(0)),
      (0x00, 2, {}), (0x01, 3, {}), (0x02, 4, {}), (0x0e, 4, _ln(2)), (0x0e, 3, _ln(0)),
      (0xb1, 2, {}), (0xb2, 3, {'lo2': 0x10, 'hi2': 0x2f}), (0xc2, 3, {'lo2': 0xb0, 'hi2': 0xb3}),
      (0xd2, 3, {'lo2': 0x80, 'hi2': 0x8f}), (0xd3, 4, {'lo2': 0x84, 'hi2': 0x84, 'lo3': 0x10, 'hi3': 0x2f}),
      (0xd1, 3, {}), (0xde, 4, _ln(2)),
      (0xe3, 4, {}), (0xe4, 5, {'lo2': 0x81, 'hi2': 0x83}), (0xe5, 6, {'lo2': 0x82, 'hi2': 0x82}),
      (0xee, 5, {'lo2': 0x83, 'hi2': 0x84})]
_DT = [(0x67, 8, {}), (0x68, 9, {}), (0x57, 8, {}), (0x59, 10, {}), (0xd2, 4, {}),
       (0xd3, 5, {'lo2': 0x80, 'hi2': 0x9f}),
       (0xb1, 3, {}), (0xb3, 4, {'lo2': 0x10, 'hi2': 0x8f}), (0xe4, 5, {}), (0xe5, 6, {}), (0x85, 6, {}), (0x86, 7, {}),
       (0xee, 6, {'lo2': 0x82, 'hi2': 0x86}), (0xde, 5, {'lo2': 0x80, 'hi2': 0x84}),
       (0x2e, 18, {'lo2': 0x80, 'hi2': 0x90}), (0xbe, 4, {'lo2': 0x80, 'hi2': 0x83})]


def _dec(rows):
    return [dict(p, n=n, lo=t, hi=t) for t, n, p in rows]


# Values that run past the end of what holds them.
_OVER = [{'n': 2, 'fixed': f, 'lo': lo, 'hi': hi, 'lo2': 0x20, 'hi2': 0x22}
         for f in ((0xb1,), (0xb2,), (0xd2, 0x84), (0xe3, 0x81, 0x84)) for lo, hi in ((0xb0, 0xb3), (0xd0, 0xd3))]
_OVER += [{'n': 1, 'fixed': f} for f in ((0xb2, 0xe3, 0x81, 0x84), (0xb3, 0xe3, 0x81, 0x84), (0xd3, 0x84, 0xb1),
                                         (0xb3, 0xb2), (0xb4, 0xd3, 0x84))]
# A version marker inside a wrapper, or with another one's length.
_OVER += [{'n': 1, 'fixed': f} for f in ((0xe6, 0x81, 0x84, 0xe0, 0x01, 0x00), (0xe3, 0x81, 0x84, 0xe0, 0x01, 0x00),
                                         (0xe9, 0x81, 0x84, 0xe0, 0x01, 0x00), (0xb4, 0xe0, 0x01, 0x00))]

CHECKS['C14'] = {'specs': [
    Spec('binary_decode:octets', _D1 + _dec(_D) +
         [{'n': 1, 'fixed': (t, 0x00), 'lo': 0x80, 'hi': 0x81} for t in (0x2e, 0x8e, 0xae, 0x0e, 0xbe, 0xde, 0xee)] +
         [{'n': 2, 'fixed': (t, 0x00), 'lo': 0x81, 'hi': 0x81} for t in (0x2e, 0x8e, 0xae, 0x0e, 0xbe)] +
         [{'n': 2, 'fixed': (0xb4, 0x21)}, {'n': 2, 'fixed': (0xd4, 0x84), 'lo': 0x20, 'hi': 0x2f}] +
         [{'n': 1, 'fixed': f, 'lo': 0, 'hi': 0x5f} for f in
          ((0xe4, 0x81, 0x84), (0xe0, 0x01, 0x00, 0xea, 0xe3, 0x81, 0x84), (0xb1,), (0xd3, 0x84, 0x21))] +
         [{'n': 3, 'lo': 0xe0, 'hi': 0xe0}] + _OVER,
         _D1 + [{'n': 2}] + [{'n': 2, 'fixed': f, 'lo': 0xb0, 'hi': 0xef} for f in
                             ((0xb1,), (0xb2,), (0xd2, 0x84), (0xb2, 0xe3, 0x81, 0x84), (0xb3, 0xe3, 0x81, 0x84),
                              (0xe3, 0x81, 0x84), (0xe4, 0x81, 0x84))] + _dec(_D + _DT),
         'n octets after the version marker and the fixed ones, the first in lo..hi, the second in lo2..hi2', ()),
    Spec('binary_decode:edited', [{'doc': d} for d in (0, 3, 7, 9, 12, 13, 24)] +
         [{'doc': d, 'replace': 0} for d in (5, 6, 8, 14, 20, 22)],
         [{'doc': d, 'replace': r} for d in range(25) for r in (0, 1, 2)],
         'documents with any octet in place of `replace` ones at any place', ()),
    Spec('binary_decode:skipped',
         [{'outer': 0xb2, 'n': 4, 'fixed': (0xe3, 0x81)}, {'outer': 0xb2, 'n': 2, 'fixed': (0xe4, 0x81, 0x84)},
          {'outer': 0xb3, 'n': 3, 'lo': 0xb2, 'hi': 0xb2, 'lo2': 0xb0, 'hi2': 0xb2}, {'outer': 0xd3, 'n': 3, 'fixed': (0x84,), 'lo': 0xd1, 'hi': 0xd2},
          {'outer': 0xb2, 'n': 3, 'lo': 0x2e, 'hi': 0x2e}],
         [{'outer': 0xb2, 'n': 4, 'lo': t << 4, 'hi': (t << 4) + 15} for t in range(15)] +
         [{'outer': 0xd3, 'n': 4, 'fixed': (0x84,), 'lo': 0xb0, 'hi': 0xdf}],
         'a container of the given type and length, whose contents start with the fixed octets and n any ones, skipped '
         'after any number of events', ('end', 'error')),
], 'budget_thorough': 2500}

CHECKS['C28'] = {'specs': [
    Spec('binary_fields:field', [{'kind': k, 'bits': 70} for k in ('varuint', 'varint', 'uint', 'int')],
         [{'kind': k, 'bits': 260} for k in ('varuint', 'varint', 'uint', 'int')], 'all values of up to `bits` bits'),
    Spec('binary_fields:buffer_tree', [{'steps': 3}, {'steps': 2, 'nested': 3}, {'steps': 1, 'nested': 20}],
         [{'steps': 5}, {'steps': 3, 'nested': 1}, {'steps': 3, 'nested': 6}, {'steps': 2, 'nested': 40}], 'all sequences of `steps` operations, twice'),
]}

_BDOCS = ['bnums', 'btimes', 'btext', 'bnest', 'bann', 'bpad', 'bivm', 'blong', 'bordered', 'blst']
_TDOCS = ['operators', 'numbers', 'timestamps', 'keywords', 'strings', 'escapes', 'surrogates', 'newlines', 'long',
          'symbols',
          'comments', 'struct', 'lobs', 'flush', 'flushed', 'utf8', 'nested', 'nested2', 'after', 'infield', 'inlong',
          'inlob', 'inblob', 'time2', 'any2']
_STREAM_BOUNDS = 'the documents of harness/streaming.py with every value of their symbolic units, cut at every place'

CHECKS['C11'] = {'specs': [
    Spec('streaming:chunked',
         [{'kind': 'binary', 'doc': d} for d in _BDOCS + ['bany1', 'bstruct', 'blen']] +
         [{'kind': 'binary', 'doc': d, 'managed': True} for d in ('bann', 'bivm', 'blst')] +
         [{'kind': 'binary', 'doc': d, 'every': True} for d in _BDOCS] +
         [{'kind': 'binary', 'doc': d, 'parts': 3} for d in ('bnums', 'bnest', 'bann', 'bpad')],
         [{'kind': 'binary', 'doc': d, 'parts': p} for p in (2, 3) for d in _BDOCS] +
         [{'kind': 'binary', 'doc': d, 'managed': True, 'parts': 3} for d in ('bann', 'bivm', 'blst')] +
         [{'kind': 'binary', 'doc': d, 'parts': 4} for d in ('bnums', 'bpad')] +
         [{'kind': 'binary', 'doc': d} for d in ('bany1', 'bany2', 'bwrap', 'bstruct', 'blist', 'blen')] +
         [{'kind': 'binary', 'doc': d, 'every': True} for d in _BDOCS + ['bany2', 'bwrap', 'bstruct', 'blist']],
         _STREAM_BOUNDS, ('end',)),
    Spec('streaming:edited_chunked',
         [{'kind': 'binary', 'doc': d} for d in (0, 7, 13, 24)],
         [{'kind': 'binary', 'doc': d, 'replace': r} for d in range(25) for r in (0, 1)],
         'the binary EDITED documents with one octet in place of `replace` ones, cut right before and behind it', ('end',)),
]}

CHECKS['C12'] = {'specs': [
    Spec('streaming:chunked',
         [{'kind': 'bytes', 'doc': d} for d in _TDOCS] +
         [{'kind': 'unicode', 'doc': d} for d in ('flush', 'any2', 'strings', 'newlines', 'comments')] +
         [{'kind': 'bytes', 'doc': d, 'every': True} for d in _TDOCS + ['sexp', 'annotated', 'nested3']] +
         [{'kind': 'unicode', 'doc': d, 'every': True} for d in ('wide', 'surrogates', 'long')],
         [{'kind': k, 'doc': d} for k in ('bytes', 'unicode') for d in _TDOCS + ['sexp', 'annotated', 'nested3', 'sign',
                                                                               'any3', 'time1']] +
         [{'kind': 'unicode', 'doc': 'wide'}] +
         [{'kind': 'bytes', 'doc': d, 'parts': 3} for d in ('escapes', 'newlines', 'strings', 'any3', 'inlong', 'nested2',
                                                            'comments')] +
         [{'kind': k, 'doc': d, 'every': True} for k in ('bytes', 'unicode')
          for d in _TDOCS + ['sexp', 'annotated', 'nested3', 'sign', 'any3', 'time1']],
         _STREAM_BOUNDS, ('end',)),
    Spec('streaming:edited_chunked',
         [{'kind': 'bytes' if d % 4 else 'unicode', 'doc': d, 'replace': 1 if d % 3 else 0} for d in range(1, 67, 4)],
         [{'kind': k, 'doc': d, 'replace': r} for k in ('bytes', 'unicode') for d in range(67) for r in (0, 1, 2)],
         'the text EDITED documents with one unit in place of `replace` ones, cut right before and behind it', ('end',)),
]}

# The EDITED texts with a container in them.
_NESTED_TEXTS = [5, 6, 7, 10, 11, 18, 19, 20, 25, 27, 28, 29, 30, 33, 34, 37, 42, 45, 46, 49, 51, 52, 53, 57, 58, 59, 60]

CHECKS['C13'] = {'specs': [
    Spec('streaming:skipping',
         [{'kind': 'bytes', 'doc': d} for d in ('nested', 'nested2', 'nested3', 'struct', 'sexp', 'annotated')] +
         [{'kind': 'bytes', 'doc': d, 'skips': 2} for d in ('nested', 'nested2')] +
         [{'kind': 'bytes', 'doc': 'nested2', 'parts': 2}, {'kind': 'unicode', 'doc': 'nested', 'parts': 2},
          {'kind': 'bytes', 'doc': 'nested3', 'parts': 0}] +
         [{'kind': 'binary', 'doc': d, 'parts': p} for d in ('bnest', 'bann', 'bpad', 'blong', 'bordered')
          for p in (0, 1, 2)] +
         [{'kind': 'binary', 'doc': d, 'skips': 2} for d in ('bnest', 'bann', 'bpad')] +
         [{'kind': 'binary', 'doc': d, 'parts': 2, 'managed': True} for d in ('blst', 'bann')] +
         [{'kind': 'bytes', 'doc': 'nested2', 'managed': True}],
         [{'kind': 'bytes', 'doc': d, 'parts': p} for d in ('nested', 'nested2', 'nested3', 'struct', 'sexp',
                                                            'annotated') for p in (0, 1, 2)] +
         [{'kind': 'bytes', 'doc': d, 'skips': s} for d in ('nested', 'nested2', 'nested3') for s in (2, 3)] +
         [{'kind': 'binary', 'doc': d, 'parts': p, 'skips': s} for d in ('bnest', 'bann', 'bpad', 'blong', 'bordered')
          for p in (0, 1, 2, 3) for s in (1, 2)] +
         [{'kind': 'binary', 'doc': d, 'parts': 2, 'managed': True, 'skips': 2} for d in ('blst', 'bann', 'bivm')] +
         [{'kind': 'bytes', 'doc': 'nested2', 'managed': True, 'skips': 2}],
         _STREAM_BOUNDS + ', SKIP after every event', ('end',)),
    Spec('streaming:edited_skipping',
         [{'kind': 'unicode', 'doc': d, 'replace': 1 if d % 3 else 0} for d in _NESTED_TEXTS] +
         [{'kind': 'binary', 'doc': d} for d in range(0, 25, 3)],
         [{'kind': 'unicode', 'doc': d, 'replace': r} for d in _NESTED_TEXTS for r in (0, 1, 2)] +
         [{'kind': 'bytes', 'doc': d} for d in _NESTED_TEXTS] +
         [{'kind': 'binary', 'doc': d, 'replace': r} for d in range(25) for r in (0, 1, 2) if d not in (10, 11)],
         'the EDITED documents with containers with one unit in place of `replace` ones, SKIP after any event', ()),
]}

_QOPS = ['extend', 'read', 'byte', 'unread', 'skip']
CHECKS['C16'] = {'specs': [
    Spec('buffers:queue',
         [{'is_unicode': u, 'steps': 3, 'ops': _QOPS, 'start': s, 'most': 4} for u in (False, True)
          for s in ((1, 2), (3, 1))] +
         [{'is_unicode': u, 'steps': 5, 'ops': ['extend', 'byte', 'unread', 'iter', 'eof'], 'most': 2, 'start': (2,)}
          for u in (False, True)] +
         [{'is_unicode': u, 'steps': 4, 'ops': ['byte', 'unread', 'read'], 'start': (2, 2), 'most': 3, 'wide': True}
          for u in (True,)],
         [{'is_unicode': u, 'steps': 4, 'ops': _QOPS, 'start': s, 'most': 4} for u in (False, True)
          for s in ((), (1, 2), (3, 1))] +
         [{'is_unicode': u, 'steps': 7, 'ops': ['extend', 'byte', 'unread', 'iter', 'eof'], 'most': 2, 'start': (2,)}
          for u in (False, True)] +
         [{'is_unicode': u, 'steps': 6, 'ops': ['byte', 'unread', 'read'], 'start': (2, 2), 'most': 3, 'wide': True}
          for u in (False, True)],
         'all sequences of `steps` operations after chunks of the lengths `start`, all contents'),
    Spec('buffers:wrong_type', [{}], None, 'all contents'),
    Spec('buffers:unread_other', [{'is_unicode': u} for u in (False, True)], None, 'all contents',
         ('accepted', 'refused')),
]}

CHECKS['C17'] = {'specs': [
    Spec('symbol_tables:tables',
         [{'sizes': (1, 1), 'local': 1, 'interned': 1}, {'sizes': (1,), 'local': 1, 'interned': 2},
          {'sizes': (1,), 'local': 1, 'interned': 1, 'append': 1},
          {'sizes': (1, 1), 'local': 0, 'interned': 1, 'nested': True}, {'sizes': (), 'local': 2, 'interned': 2},
          {'sizes': (2,), 'local': 0, 'interned': 1}, {'sizes': (0, 1), 'local': 1, 'interned': 1, 'append': 1}],
         [{'sizes': (2, 1), 'local': 1, 'interned': 1}, {'sizes': (1,), 'local': 2, 'interned': 2},
          {'sizes': (1, 1), 'local': 1, 'interned': 1, 'append': 1},
          {'sizes': (1, 1, 1), 'local': 0, 'interned': 1, 'nested': True}, {'sizes': (), 'local': 2, 'interned': 3},
          {'sizes': (2,), 'local': 1, 'interned': 1}, {'sizes': (0, 2), 'local': 1, 'interned': 1, 'append': 1}],
         'shared tables of the given sizes, `local` and `append` local symbols, `interned` additions; texts of one '
         'arbitrary character, a system symbol or unknown'),
    Spec('symbol_tables:bad_arguments', [{}], None, 'the listed kinds of bad arguments'),
    Spec('symbol_tables:equality', [{'n': 1}], [{'n': 2}], 'pairs of tables of up to n symbols'),
]}

CHECKS['C18'] = {'specs': [
    Spec('symbol_tables:catalog', [{'registered': k, 'most': 2} for k in (0, 1, 2)] +
         [{'registered': 3, 'most': 1}], [{'registered': 2, 'most': 4}, {'registered': 3, 'most': 2},
                                          {'registered': 4, 'most': 1}],
         '`registered` tables of any versions 1-9 with up to `most` symbols, any import declaration'),
    Spec('symbol_tables:catalog_refuses', [{}], None, 'the listed kinds of bad arguments'),
]}

CHECKS['C19'] = {'specs': [
    Spec('managed:stream',
         [{'items': ('value',)},
          {'items': ('table', 'value'), 'imports': 0, 'symbols': 2, 'shapes': 1, 'low': 9, 'top': 12, 'extras': False},
          {'items': ('value', 'value'), 'low': 4, 'top': 10},
          {'items': ('table', 'value'), 'imports': 0, 'symbols': 1, 'shapes': 6, 'low': 9, 'top': 11, 'kinds': 4},
          {'items': ('table', 'value'), 'imports': 1, 'symbols': 1, 'shapes': 1, 'low': 9, 'top': 12, 'extras': False,
           'kinds': 2},
          {'items': ('table', 'table', 'value'), 'simple': True, 'shapes': 1, 'low': 9, 'top': 13, 'extras': False,
           'imports': 0, 'kinds': 3},
          {'items': ('any', 'any', 'value'), 'simple': True, 'imports': 0, 'kinds': 2, 'shapes': 1, 'low': 9, 'top': 11,
           'extras': False}],
         [{'items': ('value',)},
          {'items': ('table', 'value'), 'imports': 0, 'symbols': 2, 'shapes': 9, 'low': 9, 'top': 13, 'extras': False},
          {'items': ('table', 'value'), 'imports': 0, 'symbols': 1, 'shapes': 9, 'low': 9, 'top': 11, 'kinds': 4},
          {'items': ('table', 'value'), 'imports': 1, 'symbols': 1, 'shapes': 1, 'low': 9, 'top': 12, 'extras': False,
           'kinds': 4},
          {'items': ('table', 'table', 'value'), 'simple': True, 'shapes': 1, 'low': 9, 'top': 13, 'extras': False,
           'imports': 0, 'kinds': 3},
          {'items': ('table', 'any', 'value'), 'simple': True, 'imports': 0, 'kinds': 4, 'shapes': 2, 'low': 9,
           'top': 11, 'extras': False},
          {'items': ('any', 'any', 'value'), 'simple': True, 'imports': 0, 'kinds': 2, 'shapes': 1, 'low': 9, 'top': 11,
           'extras': False}],
         'streams of the given items; a table has up to `imports` imports and `symbols` symbols of the first `kinds` '
         'kinds, a value one of the first `shapes` shapes and identifiers low..top'),
    Spec('managed:text_identifiers',
         [{'digits': n, 'role': r} for n in (1, 2, 3) for r in ('value', 'last', 'field', 'annotation', 'sexp')],
         [{'digits': n, 'role': r} for n in (1, 2, 3, 4) for r in ('value', 'last', 'field', 'annotation', 'sexp')],
         'symbol identifiers of that many digits in text'),
]}

_OPS = ['value', 'annotation', 'field', 'null']
CHECKS['C20'] = {'specs': [
    Spec('writing:symbols',
         [{'ops': ['value'], 'kinds': ['text', 'token', 'foreign']},
          {'ops': [['value', 'annotation', 'field'], ['value', 'annotation']], 'kinds': ['text', 'elsewhere'], 'top': 127},
          {'ops': ['value', ['value', 'flush', 'ivm'], 'field'], 'kinds': ['text'], 'top': 127},
          {'ops': ['value', 'annotation', 'value'], 'kinds': ['text', 'foreign'], 'top': 127},
          {'ops': [_OPS, ['flush', 'int', 'value'], ['annotation', 'value']], 'kinds': ['text'], 'top': 127},
          {'ops': ['value', ['value', 'flush', 'ivm'], 'value'], 'imports': 1, 'top': 127,
           'kinds': ['text', 'imported', 'system', 'zero', 'sid']},
          {'ops': ['field', ['value', 'flush', 'ivm'], 'value'], 'imports': 2,
           'kinds': ['imported', 'system', 'zero', 'sid']},
          {'ops': ['int', ['ivm', 'flush', 'int'], ['ivm', 'flush', 'int'], ['ivm', 'flush', 'int'], 'value'],
           'kinds': ['text'], 'top': 127}],
         [{'ops': ['value', 'value'], 'kinds': ['text', 'token', 'foreign']},
          {'ops': ['value', ['value', 'flush', 'ivm'], 'field'], 'kinds': ['text']},
          {'ops': ['value', 'annotation', 'value'], 'kinds': ['text', 'foreign', 'token'], 'top': 127},
          {'ops': [_OPS, ['flush', 'ivm', 'int', 'value'], ['annotation', 'field']], 'kinds': ['foreign'], 'top': 127},
          {'ops': [_OPS, ['flush', 'ivm', 'int', 'value'], _OPS], 'kinds': ['text'], 'top': 127},
          {'ops': [_OPS, ['value', 'flush', 'ivm'], _OPS], 'imports': 1, 'top': 127,
           'kinds': ['text', 'imported', 'system', 'zero', 'sid']},
          {'ops': [_OPS, ['value', 'flush', 'ivm'], _OPS], 'imports': 2,
           'kinds': ['imported', 'system', 'zero', 'sid']},
          {'ops': ['int', ['ivm', 'flush', 'int'], ['ivm', 'flush', 'int'], ['ivm', 'flush', 'int'], 'field'],
           'kinds': ['text'], 'top': 127}],
         'all sequences of such operations with symbols of one character up to `top`, of the listed kinds, with '
         '`imports` shared tables'),
    Spec('writing:undefined', [{}], None, 'identifiers 11-300'),
    Spec('writing:flush_events', [{'n': 2}, {'n': 1, 'imports': 2}], [{'n': 3}, {'n': 2, 'imports': 2}],
         'n dumps of symbols of one character'),
]}

_EQ_SAME = ['int', 'bool', 'float', 'decimal', 'text', 'symbol', 'bytes', 'time', 'datetime', 'null']
_EQ_CROSS = [('text', 'symbol'), ('int', 'bool'), ('int', 'float'), ('decimal', 'int'), ('symbol', 'tuple'),
             ('null', 'list'), ('null', 'int'), ('null', 'symbol'), ('bytes', 'text'), ('time', 'datetime'),
             ('bool', 'float'), ('multi', 'list')]
_EQ_SEQ = [('list', 'list'), ('tuple', 'list'), ('tuple', 'tuple'), ('multi', 'multi'), ('multi', 'dict'), ('dict', 'dict')]
CHECKS['C21'] = {'specs': [
    Spec('equality:pairs', [{'a': k, 'b': k} for k in _EQ_SAME],
         [{'a': k, 'b': k, 'digits': 5} for k in _EQ_SAME] +
         [{'a': k, 'b': k, 'anns': 2} for k in ('int', 'text', 'symbol', 'bytes')], 'pairs of values of such kinds, '
         'native or with a type and up to anns - 1 annotations', ('equal', 'different')),
    Spec('equality:pairs', [{'a': 'time', 'b': 'time', 'pick': True, 'dates': 2, 'precisions': (3,)},
                            {'a': 'time', 'b': 'time', 'pick': True, 'dates': 4, 'precisions': (0, 1, 2), 'typed': False},
                            {'a': 'datetime', 'b': 'datetime', 'pick': True, 'dates': 2}],
         [{'a': a, 'b': b, 'pick': True} for a, b in (('time', 'time'), ('time', 'datetime'), ('datetime', 'datetime'))],
         'times of a few dates, all hours, minutes and offsets', ('equal', 'different')),
    Spec('equality:pairs', [{'a': a, 'b': b} for a, b in _EQ_CROSS] +
         [{'a': 'int', 'b': 'int', 'anns': 3, 'typed': True}], None, 'pairs of values of such kinds', ('different',)),
    Spec('equality:pairs', [{'a': a, 'b': b, 'most': 1, 'items': i, 'typed': t} for a, b in _EQ_SEQ for i, t in
                            ((['int', 'bool', 'wrapped'], False), (['nan', 'seq', 'struct'], True))] +
         [{'a': a, 'b': b, 'most': 2, 'items': ['int', 'wrapped'], 'typed': False} for a, b in _EQ_SEQ] +
         [{'a': 'multi', 'b': 'multi', 'typed': True, 'most': 3, 'items': ['int']}],
         [{'a': a, 'b': b, 'most': 2, 'items': i} for a, b in _EQ_SEQ
          for i in (['int', 'bool', 'wrapped'], ['nan', 'seq', 'struct', 'int'])] +
         [{'a': 'multi', 'b': 'multi', 'typed': True, 'most': 4, 'items': ['int']}],
         'containers of up to `most` such items', ('equal', 'different')),
    Spec('equality:pairs', [{'a': 'time', 'b': 'time', 'instants': True, 'typed': False, 'dates': 1, 'places': (0, 8),
                             'precisions': (4,)},
                            {'a': 'time', 'b': 'time', 'instants': True, 'typed': False, 'dates': 2,
                             'precisions': (2, 3)},
                            {'a': 'time', 'b': 'time', 'instants': True, 'typed': True, 'dates': 1, 'places': (6, 8),
                             'precisions': (4,)},
                            {'a': 'time', 'b': 'datetime', 'instants': True, 'typed': False, 'dates': 1, 'places': (8,)},
                            {'a': 'list', 'b': 'tuple', 'instants': True, 'most': 1}],
         [{'a': 'time', 'b': 'time', 'instants': True, 'typed': False},
          {'a': 'time', 'b': 'datetime', 'instants': True, 'typed': False},
          {'a': 'datetime', 'b': 'datetime', 'instants': True},
          {'a': 'list', 'b': 'tuple', 'instants': True, 'most': 2}],
         'times of a few dates, all hours, minutes and offsets', ('equal', 'different')),
]}

CHECKS['C22'] = {'specs': [
    Spec('timestamps:micros', [{}, {'context': 'small'}, {'context': 'traps'}, {'context': 'up'}], None,
         'all fields, microseconds and precisions, under the named decimal context', ('end', 'refused')),
    Spec('timestamps:fraction',
         [{'digits': 2, 'exp': 8}, {'digits': 2, 'exp': 8, 'context': 'small'}, {'digits': 2, 'exp': 8, 'context': 'traps'}],
         [{'digits': 4, 'exp': 9}, {'digits': 2, 'exp': 8, 'context': 'small'}, {'digits': 2, 'exp': 8, 'context': 'traps'},
          {'digits': 3, 'exp': 12, 'context': 'up'}],
         'fractional seconds with coefficients of up to `digits` digits, exponents -exp..0', ('end', 'refused')),
    Spec('timestamps:offsets', [{}], None, 'all offsets', ('end',)),
    Spec('timestamps:offset_info', [{}], None, 'all hours and minutes -100..100', ('end', 'refused')),
    Spec('timestamps:adjusted', [{'precision': 3}, {'precision': 4, 'digits': 2, 'exp': 8}, {'precision': 0}, {'precision': 2}],
         [{'precision': p} for p in range(5)] +
         [{'precision': 4, 'digits': n, 'exp': e} for n, e in ((1, 1), (3, 3), (3, 6), (3, 8), (9, 9), (2, 20), (30, 30))],
         'all fields and offsets at the precision; fractions of `digits` digits of which the last is the exp-th'),
]}

CHECKS['C23'] = {'specs': [
    Spec('multimaps:history',
         [{'steps': 2, 'ops': ['add', 'set', 'del', 'pop', 'get', 'clear', 'copy']},
          {'steps': 3, 'ops': ['add', 'set', 'del']}, {'steps': 4, 'ops': ['add', 'copy']},
          {'steps': 1, 'start': 2, 'cls': 'dict', 'ops': ['add', 'set', 'del']}],
         [{'steps': 5, 'ops': ['add', 'copy']}, {'steps': 3, 'cls': 'dict', 'ops': ['add', 'set', 'del', 'copy']},
          {'steps': 3, 'ops': ['add', 'set', 'del', 'pop', 'get', 'clear', 'copy']},
          {'steps': 4, 'ops': ['add', 'set', 'del']}, {'steps': 2, 'start': 2, 'cls': 'dict', 'ops': ['add', 'set', 'del']}],
         'all sequences of `steps` operations on one of three keys'),
    Spec('multimaps:values', [{'n': 2, 'steps': 2}], [{'n': 3, 'steps': 2}], 'operations on the values of a key'),
    Spec('multimaps:struct_fields', [{'n': 3, 'binary': True}, {'n': 3, 'binary': False}],
         [{'n': 4, 'binary': True}, {'n': 4, 'binary': False}], 'structs of n fields with two names'),
    Spec('multimaps:text_struct', [{'n': 3}], None, 'structs of n fields with two names'),
]}

CHECKS['C24'] = {'specs': [
    Spec('code_points:iterate', [{'n': 0}], None, 'strings of n code units', ('end',)),
    Spec('code_points:iterate', [{'n': n} for n in (1, 2, 3, 4)] + [{'n': 6, 'lo': 0xd7ff, 'hi': 0xe000}],
         [{'n': n} for n in (1, 2, 3, 4, 5)] + [{'n': 6, 'lo': 0xd7ff, 'hi': 0xe000}],
         'strings of n code units (lo..hi)', ('end', 'refused')),
]}

_KINDS = ['int', 'float', 'text', 'bytes', 'bool', 'decimal', 'symbol', 'timestamp', 'aware', 'fraction', 'datetime',
          'list', 'dict', 'multi']
_EV_BAD = ['incomplete', 'bad start', 'bad list']
_EV_ALL = ['struct', 'list', 'sexp', 'int', 'ivm', 'end', 'stream end']
_EV_MOST = ['struct', 'list', 'int', 'end', 'ivm', 'stream end']
_EV_SHAPES = [['struct', 'list'], ['struct', 'sexp', 'end'], ['struct', 'end', 'null struct'], ['list', 'end'],
              ['int', 'end'], 'end']


def _writers(**kw):
    return [dict(kw, kind='text'), dict(kw, kind='text', indent=' '), dict(kw, kind='binary'), dict(kw, kind='raw')]


CHECKS['C25'] = {'specs': [
    Spec('event_sequences:sequence',
         _writers(ops=[_EV_ALL + _EV_BAD, ['struct', 'int', 'end', 'ivm', 'stream end'] + _EV_BAD, ['end', 'int', 'stream end'],
                       ['int', 'ivm']]) +
         _writers(ops=_EV_SHAPES) +
         [c for c in _writers(ops=[['struct', 'list'], ['struct', 'symbol', 'null'], ['end', 'int']],
                              names=[True, False], anns=[0, 1]) if c['kind'] != 'binary'] +
         [{'kind': 'binary', 'ops': [['struct', 'list'], ['struct', 'symbol'], ['end', 'int']], 'anns': [0, 1]}] +
         _writers(ops=['struct', 'symbol', 'end'], anns=[2]) +
         [{'kind': k, 'ops': ['struct', ['int', 'list'], 'end', 'end'], 'ends': False} for k in ('text', 'binary', 'raw')] +
         [{'kind': k, 'ops': ['struct', ['int', 'list'], 'end'], 'wide': True, 'ends': False}
          for k in ('text', 'binary', 'raw')],
         _writers(ops=[_EV_ALL + _EV_BAD, _EV_ALL + _EV_BAD, _EV_MOST + _EV_BAD, ['end', 'int', 'stream end', 'list'],
                       ['end', 'int', 'ivm']]) +
         _writers(ops=_EV_SHAPES + [['end', 'int', 'struct'], ['end', 'int', 'stream end']]) +
         _writers(ops=[['struct', 'list'], ['struct', 'symbol', 'sexp'], ['end', 'symbol', 'list'], ['end', 'int']],
                  names=[True, False], anns=[0, 2]) +
         [{'kind': k, 'ops': ['struct', ['symbol', 'list'], 'end'], 'wide': True, 'anns': [0, 1],
           'ends': False} for k in ('text', 'binary', 'raw')],
         'all sequences of such events with such numbers of annotations, with and without field names; symbols of one '
         'character', ('end',)),
    Spec('event_sequences:wrong_values', [{'kind': k} for k in ('text', 'binary', 'raw')], None,
         'all Ion types with a value of one of eleven other Python types, at the top, in a list and in a struct',
         ('refused',)),
    Spec('event_sequences:protocol', [{'kind': k} for k in ('text', 'binary')], None, 'the first four calls'),
    Spec('event_sequences:copy',
         [{'source': 'bytes', 'doc': d, 'kind': k} for k in ('text', 'binary')
          for d in ('numbers', 'timestamps', 'keywords', 'strings', 'long', 'symbols', 'lobs', 'annotated', 'nested3',
                    'any2')] +
         [{'source': 'binary', 'doc': d, 'kind': k} for k in ('text', 'binary')
          for d in ('bnums', 'btimes', 'btext', 'bnest', 'bann', 'bpad', 'blong', 'blst', 'bany1')] +
         [{'source': 'bytes', 'doc': 'nested3', 'kind': 'text', 'indent': '  '}],
         [{'source': s, 'doc': d, 'kind': k} for k in ('text', 'binary') for s in ('bytes', 'unicode')
          for d in _TDOCS + ['sexp', 'annotated', 'nested3', 'sign', 'any3', 'wide']
          if d != 'wide' or s == 'unicode'] +
         [{'source': 'binary', 'doc': d, 'kind': k} for k in ('text', 'binary')
          for d in _BDOCS + ['bany2', 'bwrap', 'bstruct', 'blist', 'blen']] +
         [{'source': 'bytes', 'doc': d, 'kind': 'text', 'indent': '  '} for d in ('nested', 'nested2', 'nested3')],
         _STREAM_BOUNDS + ', copied by a writer', ('end',)),
]}

CHECKS['C26'] = {'specs': [
    Spec('options:tuples',
         [{'depth': 2, 'width': 1, 'binary': b, 'kinds': ['int', 'symbol', 'list', 'tuple', 'dict', 'sexp', 'nulllist']}
          for b in (False, True)] +
         [{'depth': 2, 'width': 1, 'binary': True}] +
         [{'depth': 4, 'width': 1, 'binary': b, 'kinds': ['int', 'list', 'tuple', 'dict']} for b in (False, True)] +
         [{'depth': 2, 'width': 2, 'binary': False, 'kinds': ['tuple', 'dict']}],
         [{'depth': 2, 'width': 1, 'binary': b} for b in (False, True)],
         'trees of the given depth and width', ('value',)),
    Spec('options:tuples',
         [{'depth': 1, 'width': 2, 'binary': False, 'sequence': True,
           'kinds': ['int', 'tuple', 'list', 'null', 'operator']},
          {'depth': 1, 'width': 2, 'binary': False, 'sequence': True, 'kinds': ['symbol', 'tuple', 'typed list']},
          {'depth': 1, 'width': 2, 'binary': True, 'sequence': True},
          {'depth': 2, 'width': 1, 'binary': False, 'sequence': True, 'kinds': ['int', 'symbol', 'list', 'tuple']}],
         [{'depth': d, 'width': w, 'binary': b, 'sequence': True} for d, w in ((1, 2), (2, 1), (1, 3))
          for b in (False, True)],
         'trees of the given depth and width', ('value', 'stream')),
    Spec('options:marker', [{'depth': 1, 'width': 1, 'indents': [None, '', '  ']},
                            {'depth': 1, 'width': 2, 'kinds': ['int', 'operator', 'list', 'tuple']}],
         [{'depth': 2, 'width': 2, 'indents': [None, '', '  '], 'kinds': ['int', 'operator', 'list', 'tuple']}],
         'trees of the given depth and width'),
    Spec('options:indents', [{'n': 0}], None, 'the empty indent'),
    Spec('options:indents', [{'n': 1}, {'n': 2}], [{'n': 1, 'hi': 0x10ffff}, {'n': 2}, {'n': 3}],
         'indents of n characters', ('end', 'refused')),
    Spec('options:bad_indent', [{}], None, 'the listed indents that are no text'),
    Spec('options:successive', [{'n': 2, 'kinds': ['symbol', 'list', 'null', 'dict']}, {'n': 3, 'kinds': ['symbol', 'int']}],
         [{'n': 2}, {'n': 3, 'kinds': ['symbol', 'int', 'list']}], 'n dumps to one file'),
]}

CHECKS['C27'] = {'specs': [
    Spec('wrappers:wrapped', [{'kind': k} for k in _KINDS], None,
         'values of the kind (integers of 70 bits, text and octets of up to 3, containers of up to 3 items) with up to '
         'two annotations'),
    Spec('wrappers:nulls', [{}], None, 'all types and wrapper classes'),
    Spec('wrappers:nested', [{'n': 1}], None, 'containers in containers'),
]}

# (before, characters, after, characters, middle)
_SLOTS = [
    ('1.', 2, ''), ('-', 2, ''), ('1e', 2, ''), ('0x', 2, ''), ('0b', 2, ''), ('-0', 2, ''), ('12', 1, '34'),
    ('1_', 2, ''), ('200', 2, ''), ('2000-', 2, ''), ('2000-01-', 2, ''), ('2000-02-29', 2, ''),
    ('2000-01-01T', 2, ':00Z'), ('2000-01-01T00:00', 2, ''), ('2000-01-01T00:00:0', 2, 'Z'),
    ('2000-01-01T00:00:00.', 2, 'Z'), ('2000-01-01T00:00+', 2, ':00'), ('2000-01-01T00:00-00:', 2, ''),
    ('2000-01-01T00:00Z', 2, ''), ('2', 2, '0-02-29T'), ('nul', 2, ''), ('null', 2, ''), ('null.', 2, 't'),
    ('null.in', 2, ''), ('null.str', 2, 'ng'), ('null.int', 2, ''), ('tru', 2, ''), ('true', 2, ''), ('nan', 2, ''),
    ('na', 2, ''), ('fals', 2, ''), ('+in', 2, ''), ('-inf', 2, ''), ('$', 2, ''), ('$1', 2, ''), ('$ion_1_', 2, ''),
    ('a:', 2, '1'), ('a::', 2, ''), ('a:', 1, ':b'), ('"', 2, '"'), ('"\\', 2, '1"'), ('"\\u', 2, '00"'),
    ('"\\ud83', 1, 'dc0d"', 1, '\\u'), ('"\\U0010fff', 2, 'f"'), ('"\\x', 2, '"'), ("'", 2, "'"), ("'''", 2, "'''"),
    ("'''a", 1, "'''", 1, "'''"), ("'''a'''", 2, "'''b'''"), ("'''a'''", 2, "'b'"), ("'a'", 2, '1'), ("''", 2, "'"),
    ('{{', 2, '}}'), ('{{YQ', 2, '}}'), ('{{YQ=', 2, '}}'), ('{{YW', 2, '=}}'), ('{{"', 2, '"}}'),
    ("{{'''a", 2, "'''}}"), ("{{'''a'''", 2, "'''b'''}}"), ('{{"a"', 2, '}}'), ('{{YWJj', 2, ''), ('{', 2, ':1}'),
    ('{a', 2, '1}'), ('{a:', 2, '}'), ('{a:1', 2, '}'), ('{"a"', 2, '1}'), ("{'a'", 2, '1}'), ("{'''a'''", 2, '1}'),
    ('{$1', 2, '1}'), ('{nul', 2, '1}'), ('{a:b:', 2, '1}'), ('{a:1,', 2, ':2}'), ('[', 2, ']'), ('[1', 2, '2]'),
    ('[a', 2, 'b]'), ('["a"', 2, ']'), ("['a'", 2, ']'), ('[a:', 2, ']'), ('[[]', 2, ']'), ('(', 2, ')'),
    ('(a', 2, 'b)'), ('(1', 2, '2)'), ('(+', 2, ')'), ('(-', 2, ')'), ('(null', 2, ')'), ('(nan', 2, ')'),
    ('(a:', 2, ')'), ("('a'", 2, ')'), ("('''a'''", 2, ')'), ('(/', 2, ')'), ('(-in', 2, ')'), ('(+inf', 2, ')'),
    ('{{YQ==', 1, '}}', 1, 'YWJ'), ('{{YQ=', 2, 'YWJ}}'), ('(null.int', 2, ')'), ('/', 2, '1'), ('/*', 2, '1'), ('//', 2, '1'), ('1/', 2, ''), ('/**', 2, '/1'),
]
_SLOTS3 = [
    ('{{YQ', 3, '}}'), ('{{', 3, '}}'), ('{{YW', 1, '}}', 2, '= '), ('(', 3, ')'), ('{', 3, '}'), ('[', 3, ']'),
    ("'", 3, "'"), ('"\\', 3, '"'), ('1', 3, ''), ('2000-01-01', 3, ''), ('-0', 3, ''), ('0x', 3, ''),
    ('"\\u', 4, '"'), ('"\\u', 2, '00"', 2, '00\\u'), ('a', 3, 'b'), ('{a', 3, '1}'), ("'''a'''", 3, ''),
    ("''", 3, ''), ('a::', 3, ''), ('$ion_', 3, ''), ('null.', 3, ''), ('(+', 3, ')'), ('1e', 3, ''), ('1.', 3, ''),
    ('a::/', 2, 'b::c'), ('"a', 1, '\\', 2, 'b"'), ("''''''", 2, ''), ("{'''", 2, "''':1}"), ("{a:'''", 2, "'''}"),
    ("['''", 2, "''']"), ("('''a'''", 3, ')'),
]


def _slots(xs):
    keys = ('before', 'n', 'after', 'm', 'middle')
    return [dict(zip(keys, x)) for x in xs]


_GAPPED = ['struct', 'struct2', 'list', 'list2', 'sexp', 'sexp2', 'top', 'top2', 'top3', 'top4', 'top5', 'top6']
CHECKS['C15'] = {'specs': [
    Spec('text_decode:text', [{'n': 1}, {'n': 2}], [{'n': 2}, {'n': 3}],
         'all texts of n characters', ('ok', 'bad')),
    Spec('text_decode:text', [{'n': 2, 'wide': True, 'hi': 0x10ffff}], [{'n': 3, 'wide': True, 'hi': 0x10ffff}],
         'all texts of n characters', ('ok', 'bad')),
    Spec('text_decode:text', _slots(_SLOTS), _slots(_SLOTS + _SLOTS3),
         'all ASCII characters in place of the n (and m) characters between the given pieces', ()),
    Spec('text_decode:edited', [{'doc': d, 'replace': r} for r in (0, 1) for d in range(67)],
         [{'doc': d, 'replace': r} for r in (1, 2) for d in range(67)] +
         [{'doc': d, 'n': 2} for d in range(67)],
         'documents with n ASCII characters in place of `replace` ones at any place', ()),
    Spec('text_decode:gaps', [{'doc': d} for d in _GAPPED], [{'doc': d, 'gaps': 2} for d in _GAPPED],
         'documents with white space or comments, of any one character, in `gaps` places between tokens', ('ok',)),
    Spec('text_decode:tokens', [{'k': 2}, {'k': 2, 'before': '(', 'after': ')'}, {'k': 2, 'before': "'''z'''"},
                                {'k': 2, 'before': '{a:', 'after': '}'}, {'k': 2, 'before': '[', 'after': ']'}],
         [{'k': 3}] + [{'k': 3, 'before': a, 'after': b} for a, b in
                       (('(', ')'), ('[', ']'), ('{a:', '}'), ('{', '}'), ('(', ''), ('a::', ''), ("'''z'''", ''),
                        ('{a:b::', '}'))],
         'all sequences of k of 33 tokens', ('ok', 'bad')),
]}

_TEXTS = [('', 1, ''), ('"', 2, '"'), ("'", 1, "'"), ("{{'''", 1, "'''}}"), ('//', 1, '\n1'), ('{a:', 1, 'b}'),
          ("'''a", 1, "'''")]
CHECKS['C30'] = {'specs': [
    Spec('files:utf8', [{'n': 1}, {'n': 2}, {'n': 2, 'pieces': 2}, {'n': 3}, {'n': 3, 'pieces': 2, 'lo': 0xe0}],
         [{'n': 4}, {'n': 3, 'pieces': 2}, {'n': 3, 'pieces': 3}], 'all n octets inside a string', ('ok', 'bad')),
    Spec('files:utf8', _slots([("'", 2, "'"), ("'''", 2, "'''"), ('', 2, ''), ('a', 2, ''), ('/*', 2, '*/1'),
                               ('//', 2, '\n1'), ('{{"', 2, '"}}'), ("{'", 2, "':1}"), ('{"', 2, '":1}'),
                               ("'''a''''", 2, "'"), ("'''a'''", 2, "'''b'''"), ("''", 2, "'"), ("a::'", 2, "'")]),
         None, 'all n octets between the given pieces', ()),
    Spec('files:text', [dict(x, kind=k) for k in ('octets', 'file', 'text file', 'pieces') for x in _slots(_TEXTS)],
         [dict(x, kind=k) for k in ('octets', 'file', 'text file', 'pieces')
          for x in _slots(_TEXTS + [('', 2, ''), ("'''a", 2, "'''")])],
         'all n characters between the given pieces', ()),
    Spec('files:binary', [{'doc': 'list'}, {'doc': 'table'}, {'doc': 'any'}],
         [{'doc': d, 'pieces': p} for d in ('any', 'list', 'nested', 'table') for p in (2, 3)],
         'binary documents with an arbitrary octet, read in `pieces` pieces cut anywhere', ('ok',)),
    Spec('files:position', [{'doc': d, 'kind': k, 'm': m} for d in ('any', 'table', 'number', 'string', 'marker')
                            for k, m in (('file', 1), ('pieces', 4))] +
         [{'doc': d, 'kind': 'text file', 'm': 2} for d in ('number', 'string')],
         [{'doc': d, 'kind': k, 'm': m} for d in ('any', 'table', 'number', 'string', 'marker')
          for k in ('file', 'pieces') for m in (1, 2, 4, 5)] +
         [{'doc': d, 'kind': 'text file', 'm': 2} for d in ('number', 'string')],
         'files with m octets before their position', ('ok',)),
]}

_COPIED_TEXT = ['$ion_symbol_table::{symbols:["a","b"]}[$10,$11::{$10:$11}]',
                "$ion::{a:b::[c::(d e::1.50 -0. '''x'''), 2000-01-01T00:00-01:00]}", "{a:1,a:2,'a b':{a:null.list}}",
                '$ion_1_0 x $ion_symbol_table::{imports:$ion_symbol_table,symbols:["y"]}$10',
                "{a:1,'$0':2,$0:3,b:$0::$0}", '{$0:[{$0:null}],$0:4}']
_COPIED_BINARY = ['e7 81 83 d4 87 b2 81 61 71 0a 71 0a', 'e6 81 83 d3 87 b1 80 d6 8a e4 81 8a 71 0a 20',
                  'e9 81 83 d6 87 b4 81 61 81 62 d3 8b 71 0b',
                  'e3 81 84 5f e4 82 84 85 0f de 84 87 68 80 c0', 'd2 8a 0f d4 80 11 80 20']

# All but those with floats whose text is not given by a table of their digits.
_COPIED_EDITS = [d for d in range(67) if d not in (13, 41, 63)]

CHECKS['C31'] = {'specs': [
    Spec('copying:edited',
         [{'kind': 'unicode', 'doc': d, 'replace': 1 if d % 4 else 0, 'twice': True} for d in _COPIED_EDITS[::4]] +
         [{'kind': 'unicode', 'doc': d} for d in _COPIED_TEXT] +
         [{'kind': 'binary', 'doc': d, 'twice': True} for d in (4, 6, 14, 18)] +
         [{'kind': 'binary', 'doc': d} for d in _COPIED_BINARY],
         [{'kind': 'unicode', 'doc': d, 'replace': r} for d in _COPIED_EDITS + _COPIED_TEXT for r in (0, 1, 2)] +
         [{'kind': 'binary', 'doc': d, 'replace': r} for d in [x for x in range(25) if x != 15] + _COPIED_BINARY
          for r in (0, 1, 2)],
         'the documents with one unit in place of `replace` ones at any place, in all formats', ()),
    Spec('copying:events',
         [{'kind': 'unicode', 'doc': d, 'replace': 1 if d % 4 == 1 else 0} for d in _COPIED_EDITS if d % 2] +
         [{'kind': 'binary', 'doc': d} for d in (11, 17)] +
         [{'kind': 'unicode', 'doc': d} for d in _COPIED_TEXT] + [{'kind': 'binary', 'doc': d} for d in _COPIED_BINARY],
         [{'kind': 'unicode', 'doc': d, 'replace': r} for d in _COPIED_EDITS + _COPIED_TEXT for r in (0, 1, 2)] +
         [{'kind': 'binary', 'doc': d, 'replace': r} for d in [x for x in range(25) if x != 15] + _COPIED_BINARY
          for r in (0, 1)],
         'the events of such documents, in text', ()),
]}
