"""Contracts of the length functions the headers define inline (reached through harness/lengths.c): the sizes that the set-ups
of the other contracts take as the documented capacities are the announced ones, or smaller."""
from .contract import *
from .c_base import ALPHA, Std64Decode, Decode, enc_len, dec_len
from .c_b58c import cap58
from .c_text import MAXP


def announced(ex, st, r, n, exact):
    ex.oblige(st, le(n, r), 'the announced length covers the output')
    if exact:
        ex.oblige(st, eq(r, n), 'the announced length is exactly that of the output')


class Len(Contract):
    his = ((1 << 60),)
    exact = True
    what = ''

    def setup(self, ex, st):
        c = Ctx()
        c.a = [size_param(ex, st, 'n%d' % i, 0, h) for i, h in enumerate(self.his)]
        return [U(64, x) for x in c.a], c

    def need(self, *a):
        raise NotImplementedError

    def post(self, ex, st, ret, c):
        r, n = as_u(ret), self.need(*c.a)
        announced(ex, st, r, n, self.exact)


def length(name, func, need, his=((1 << 60),), exact=True):
    return register(type(name, (Len,), dict(name=name, func=func, his=his, exact=exact, need=lambda self, *a: need(*a))))


BIG = 1500000000
length('fingera_to_hex_length', 'vp_len_to_hex', lambda n: mul(n, 2))
length('fingera_from_hex_length', 'vp_len_from_hex', lambda n: idiv(n, 2), exact=False)
length('fingera_to_base32_length', 'vp_len_to_base32', lambda n: mul(idiv(add(n, 4), 5), 8))
length('fingera_to_base64_length', 'vp_len_to_base64', lambda n: mul(idiv(add(n, 2), 3), 4))
length('fingera_to_base64_urlsafe_length', 'vp_len_to_base64_urlsafe', lambda n: enc_len(ALPHA['url'], n))
length('fingera_from_base64_urlsafe_length', 'vp_len_from_base64_urlsafe', lambda n: dec_len(ALPHA['url'], n))
length('fingera_to_base58_length', 'vp_len_to_base58', cap58, (BIG,), False)
length('fingera_from_base58_length', 'vp_len_from_base58', lambda n: n, ((1 << 31) - 1,), False)
length('fingera_to_base58_check_length', 'vp_len_to_base58_check', lambda n, p: cap58(add(add(n, p), 4)), (BIG // 2, BIG // 2 - 4), False)
length('fingera_from_base58_check_length', 'vp_len_from_base58_check', lambda n: n, ((1 << 31) - 1,), False)
length('fingera_bech32_encode_length', 'vp_len_bech32_encode', lambda h, n: add(add(h, n), 7), (1 << 60, 1 << 60))
length('fingera_key_string_max_length', 'vp_len_key_string', lambda: cap58(32 + 4 + MAXP), (), False)
length('fingera_exkey_string_max_length', 'vp_len_exkey_string', lambda: cap58(74 + 4 + MAXP), (), False)


@register
class B64Len(Std64Decode):
    name, func, alpha = 'fingera_from_base64_length', 'vp_len_from_base64', 'std'

    def setup(self, ex, st):
        args, c = Decode.setup(self, ex, st)
        return args[:2], c

    def post(self, ex, st, ret, c):
        announced(ex, st, as_u(ret), c.cap, True)
