"""Which contracts decide which property.  The check of a property verifies these functions and, transitively, every
function whose contract they assume."""
SECP = ['libsecp256k1: functions depend only on their arguments; a context passed as const is only read',
        'libsecp256k1: parse33(serialize33(P)) = P, parse65(serialize65(P)) = P, serialize33(parse33(b)) = b; first byte 2/3 resp. 4',
        'libsecp256k1: the public key of a tweaked secret key is the tweaked public key, and both fail together (curve homomorphism)',
        'libsecp256k1: signing with a valid key and the RFC 6979 nonce function succeeds; DER text has 8 to 72 bytes',
        'libsecp256k1: parsing the all-zero compact signature succeeds']
PARAM = ['network parameter sets: every prefix has at most 8 bytes (true of the supplied sets: C29, lemma parameters_assumed)']
TEXT = ['texts shorter than 2^31 characters, Base58Check data of at most 1.5e9 bytes (int-sized scratch buffers)', 'isspace: the C locale table of the C library']
RAND = ['open/read/close: read returns -1 or at most the requested count, filling exactly that many bytes from the device stream']
PROPS = {
    'C01': dict(funcs=['fingera_to_hex', 'fingera_from_hex', 'fingera_to_hex_length', 'fingera_from_hex_length']),
    'C02': dict(funcs=['fingera_to_base32', 'fingera_from_base32', 'fingera_from_base32_length', 'fingera_to_base32_length']),
    'C03': dict(funcs=['fingera_to_base32_raw', 'fingera_from_base32_raw', 'fingera_from_base32_raw_length']),
    'C04': dict(funcs=['fingera_to_base64', 'fingera_to_base64_urlsafe', 'fingera_from_base64', 'fingera_from_base64_urlsafe',
                       'fingera_to_base64_length', 'fingera_to_base64_urlsafe_length', 'fingera_from_base64_length', 'fingera_from_base64_urlsafe_length']),
    'C05': dict(funcs=['fingera_to_base58', 'fingera_from_base58', 'fingera_to_base58_length', 'fingera_from_base58_length'],
                assume=['base58: input of at most 1.5e9 bytes, text of less than 2^31 characters (int-sized scratch buffers)',
                        'isspace: the C locale table of the C library']),
    'C06': dict(funcs=['fingera_to_base58_check', 'fingera_from_base58_check', 'fingera_to_base58_check_length', 'fingera_from_base58_check_length'],
                assume=['base58check: prefix and data of at most 1.5e9 bytes together, text of less than 2^31 characters (int-sized scratch buffers)',
                        'isspace: the C locale table of the C library']),
    'C07': dict(funcs=['fingera_bech32_encode', 'fingera_bech32_decode', 'fingera_bech32_encode_length']),
    'C08': dict(funcs=['fingera_bech32_decode']),
    'C09': dict(funcs=['fingera_btc_address_decode', 'fingera_to_address_pubkey', 'fingera_to_address_script', 'fingera_to_address_witnessv0_keyhash',
                       'fingera_to_address_witnessv0_scripthash', 'fingera_to_address_witness_unknown'],
                assume=PARAM + TEXT + ['the human-readable part of a parameter set has 1 to 16 characters, in lower case (true of the supplied sets: C29)',
                                       'round trip: the Base58Check prefixes of a set are distinct and none starts with another; a witness address text '
                                       'is not at the same time a valid Base58Check text of the network (a 32-bit checksum coincidence)']),
    'C10': dict(funcs=['fingera_to_address_pubkey', 'fingera_to_address_script', 'fingera_to_address_witnessv0_keyhash', 'fingera_to_address_witnessv0_scripthash',
                       'fingera_to_address_witness_unknown', 'fingera_to_address_witnessv0_keyhash [other sizes]',
                       'fingera_to_address_witnessv0_scripthash [other sizes]', 'fingera_to_address_witnessv0_keyhash [other sizes NDEBUG]',
                       'fingera_to_address_witnessv0_scripthash [other sizes NDEBUG]'],
                assume=PARAM + TEXT + ['a version 0 payload of illegal size stops the program at an assertion, or is refused where assertions are compiled out']),
    'C11': dict(funcs=['fingera_encode_varint', 'fingera_decode_varint']),
    'C12': dict(funcs=['fingera_encode_zigzag', 'fingera_decode_zigzag']),
    'C13': dict(funcs=['fingera_sha1', 'fingera_ripemd160']),
    'C14': dict(funcs=['fingera_sha2_256', 'fingera_sha2_512']),
    'C15': dict(funcs=['fingera_hmac_sha256', 'fingera_hmac_sha512']),
    'C16': dict(funcs=['fingera_btc_hash160', 'fingera_btc_hash256', 'fingera_btc_hash256_d64', 'fingera_btc_bip32_hash']),
    'C17': dict(funcs=['fingera_btc_key_to_string', 'fingera_btc_key_from_string', 'fingera_key_string_max_length'], assume=PARAM + TEXT),
    'C18': dict(funcs=['fingera_btc_key_encode', 'fingera_btc_key_decode'], assume=SECP),
    'C19': dict(funcs=['fingera_btc_signature_decode [%s sequence length; %s length of R]' % (a, b) for a in ('short', 'long') for b in ('short', 'long')], assume=SECP),
    'C20': dict(funcs=['fingera_btc_key_sign', 'fingera_btc_key_verify', 'fingera_btc_signature_encode'],
                assume=SECP + ['fewer than 2^32 - 2 signing attempts are needed for a low R']),
    'C21': dict(funcs=['fingera_exkey_init', 'fingera_exkey_derive', 'fingera_btc_key_derive'], assume=SECP),
    'C22': dict(funcs=['fingera_exkey_derive', 'fingera_exkey_get_pub', 'fingera_expubkey_derive', 'fingera_btc_pubkey_derive'], assume=SECP),
    'C23': dict(funcs=['fingera_ex%s_%s' % (k, f) for k in ('key', 'pubkey') for f in ('encode', 'decode', 'to_string', 'from_string')] + ['fingera_exkey_string_max_length'],
                assume=PARAM + TEXT),
    'C24': dict(funcs=['fingera_os_rand_bytes', 'fingera_btc_key_new'], assume=RAND + SECP),
    'C25': dict(only='wiping', funcs=['fingera_to_base58', 'fingera_from_base58', 'fingera_to_base58_check', 'fingera_from_base58_check', 'fingera_btc_key_to_string',
                       'fingera_btc_key_from_string', 'fingera_exkey_to_string', 'fingera_exkey_from_string'],
                assume=PARAM + TEXT + ['the compiler keeps the stores of fingera_cleanse (the sources fence them); the proof is about the unoptimised IR']),
    'C26': dict(funcs=['fingera_hex_dump'], assume=['fwrite writes all it is given to the stream']),
    'C27': dict(funcs=['fingera_btc_key_init', 'fingera_btc_key_uninit'], assume=RAND + SECP),
    'C29': dict(funcs=['chain_parameters (data)']),
    'C30': dict(funcs=['fingera_btc_key_get_pub', 'fingera_btc_pubkey_encode', 'fingera_btc_pubkey_decode', 'fingera_btc_key_keyid',
                       'fingera_btc_pubkey_keyid', 'fingera_btc_key_fingerprint', 'fingera_btc_pubkey_fingerprint'], assume=SECP),
}
MODULES = ['c_hex', 'c_base', 'c_varint', 'c_hash', 'c_bech32', 'c_rand', 'c_key', 'c_chain', 'c_b58', 'c_b58c', 'c_text', 'c_addr', 'c_len']
# C28: every contract generates the memory and arithmetic obligations of the code it runs over
import importlib as _i      # noqa
import re as _re            # noqa


def everything():
    from . import contract
    for m in MODULES:
        _i.import_module('vc.' + m)
    return sorted(n for n, c in contract.CONTRACTS.items() if not hasattr(c, 'data'))


# obligations of the body that are about results, not about memory or arithmetic
FUNCTIONAL = ('blinded curve context', 'the nonce function', 'the random device', 'read from the opened', 'heap scratch wiped', 'module state and global',
              'every opened descriptor', 'read from a descriptor', 'close of the opened')
LENGTHS = _re.compile('length|announced|capacity|size|count|at most|number of|fits')
MEMORY = ('in bounds of', 'signed overflow', 'division by zero', 'shift amount', 'null ', 'argument of')


def safety(o):
    if o.post:
        return bool(LENGTHS.search(o.name)) and 'exactly' not in o.name
    return not o.name.startswith(FUNCTIONAL)


def wiping(o):
    return not o.post and not o.name.startswith(tuple(x for x in FUNCTIONAL if not x.startswith('heap')) + MEMORY)


def frame(o):
    return o.name.startswith(('module state and global', 'the verifier processed', 'write to memory outside', 'use of freed'))


FILTERS = dict(safety=safety, wiping=wiping, frame=frame)
KEYS = ['C17', 'C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'C30']
PROPS['C31'] = dict(only='frame', funcs=sorted({f for p in KEYS for f in PROPS[p]['funcs']} | {'fingera_os_rand_bytes', 'fingera_btc_key_new'}),
                    assume=SECP + RAND + PARAM + TEXT + ['threads whose calls write disjoint memory and only read shared memory do not interfere (parallel '
                                                         'composition rule); external functions (libsecp256k1 with const contexts, malloc, read) are thread-safe',
                                                         'distinct output buffers per thread; initialisation happens before and uninitialisation after'])
PROPS['C28'] = dict(only='safety', funcs=everything, assume=SECP + RAND + PARAM + TEXT)
