"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vc.props import PROPS

T = []


def P(id, title, statement, text, why, files, mech, over=('inputs',)):
    T.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


S = 'The tests use a handful of fixed vectors plus short exhaustive sizes; '
P('C01', 'Hex text is the exact positional rendering and decoding inverts it',
  'Encoding n bytes to hex writes exactly 2n characters, the two digits of each byte in order and in the requested case. '
  'Decoding reads pairs in either case and stops before the first pair containing a character that is not a hex digit, ignoring an odd last character; it returns the number of bytes decoded, and decoding an encoding returns the original bytes.',
  'every byte string of every length, every text of every length, both cases', S + 'no test ranges over lengths together with arbitrary illegal characters at arbitrary positions.',
  ['src/hex.c', 'include/fingera_libc/hex.h'], [('hex encode/decode', 'src/hex.c'), ('length announcement', 'include/fingera_libc/hex.h')])
P('C02', 'Base32 text follows RFC 4648 and decoding inverts encoding',
  'Base32 encoding writes the 5-bit groups of the data, most significant first, in the lower-case RFC 4648 alphabet, padded with "=" to a multiple of 8 characters. '
  'Decoding accepts both cases, ends at the first "=", stops at the first 8-character block containing a character outside the alphabet, accepts a partial last block only if an encoder could have produced its length, and never writes more than the announced size. '
  'Decoding an encoding returns the original bytes.',
  'every byte string and every text of every length', S + 'block positions, tail lengths and illegal characters combine into inputs no table covers.',
  ['src/base32.c', 'include/fingera_libc/base32.h'], [('block and tail codec', 'src/base32.c')])
P('C03', 'Regrouping bytes into 5-bit values is exact and invertible',
  'Regrouping writes ceil(8n/5) values, the 5-bit groups of the data most significant first with zero padding in the last one, and returns that count. '
  'The inverse accepts only values below 32, stops at the first 8-value block holding a larger one, and returns exactly the bytes carried; regrouping forth and back is the identity.',
  'every byte string and every value string of every length', S + 'tail lengths and out-of-range values at every position are not reached.',
  ['src/base32.c', 'include/fingera_libc/base32.h'], [('raw regrouping', 'src/base32.c')])
P('C04', 'Base64 (standard and URL-safe) follows RFC 4648 and decoding inverts encoding',
  'Encoding writes the 6-bit groups in the RFC 4648 alphabet (padded with "=" in the standard variant, unpadded in the URL-safe one), with exactly the announced length. '
  'Decoding drops at most two trailing "=" (standard), stops at the first 4-character block containing a character outside the alphabet, and treats a tail of 2 or 3 alphabet characters as 1 or 2 bytes. '
  'Decoding an encoding returns the original bytes.',
  'every byte string and every text of every length', 'The exhaustive test covers valid encodings of short inputs; illegal characters, misplaced padding and long inputs are outside it.',
  ['src/base64.c', 'include/fingera_libc/base64.h'], [('block and tail codec', 'src/base64.c'), ('length announcement', 'include/fingera_libc/base64.h')])
P('C05', 'Base58 text is the exact base conversion with leading zeros kept',
  'Base58 encoding writes one "1" per leading zero byte followed by the base-58 digits of the remaining big-endian number without leading zero digits, within the announced length. '
  'Decoding ignores surrounding white space, accepts exactly the texts over the 58-character alphabet, and returns the leading zero bytes followed by the minimal big-endian bytes of the number, never more than the announced size; any other text is refused.',
  'every byte string and every text whose length fits an int-sized scratch buffer', S + 'arithmetic over arbitrary-length numbers and the scratch size bound hold or fail for lengths and values the vectors do not contain.',
  ['src/base58.c', 'include/fingera_libc/base58.h'], [('big-number base conversion', 'src/base58.c'), ('scratch size 138/100 and 733/1000', 'src/base58.c')])
P('C06', 'Base58Check accepts exactly the texts whose checksum matches',
  'Base58Check encoding is the base58 text of prefix, data and the first four bytes of the double SHA-256 of both. '
  'Decoding returns prefix and data exactly when the text is valid base58 of at least four bytes whose last four bytes are that checksum, and refuses everything else.',
  'every prefix, data and text', S + 'acceptance of a wrong checksum byte or refusal of a right one is a statement about all texts.',
  ['src/btc/base58_check.c', 'include/fingera_libc/btc/base58_check.h'], [('checksum append and compare', 'src/btc/base58_check.c')])
P('C07', 'Bech32 encoding and decoding follow BIP 173',
  'Encoding writes the human-readable part, "1", the data characters and the six checksum characters of BIP 173. '
  'Decoding accepts exactly the BIP 173 strings - printable characters, no mixed case, at most 90 characters, a non-empty human-readable part before the last "1", at least six data characters of the alphabet, a valid checksum - whose human-readable part fits the given buffer, and returns that part in lower case and the data values without the checksum.',
  'every human-readable part, value string and text', S + 'only the BIP vectors are tested; the checksum and the separator search depend on every character.',
  ['src/btc/bech32.c', 'include/fingera_libc/btc/bech32.h'], [('checksum polynomial', 'src/btc/bech32.c'), ('case, range and separator checks', 'src/btc/bech32.c')])
P('C08', 'Bech32 decoding detects every substitution of up to four characters',
  'If a valid bech32 text of at most 90 characters is changed by substituting one to four characters after the separator by other characters of the alphabet in the same case, decoding refuses the result.',
  'every valid text, every set of one to four positions after the separator, every replacement', 'It quantifies over all pairs of texts at distance four; the tests check some invalid vectors.',
  ['src/btc/bech32.c'], [('checksum polynomial and its verification', 'src/btc/bech32.c')])
P('C09', 'Address decoding classifies exactly well-formed addresses and inverts encoding',
  'Given an output buffer at least as long as the text, decoding reports a public-key or script address exactly for valid Base58Check texts with the network prefix, and a witness address exactly for valid bech32 texts with the network prefix whose program has legal version, length and zero padding of at most four bits; it returns the payload (version first for unknown witness versions). '
  'Everything else is reported as bad, and decoding an encoded address returns the kind and payload it was made from.',
  'every text, every network parameter set, every payload', S + 'a few addresses per network are checked; which texts are refused is a statement about all of them.',
  ['src/btc/address.c', 'include/fingera_libc/btc/address.h'], [('classification', 'src/btc/address.c'), ('padding and program length rules', 'src/btc/address.c')])
P('C10', 'Address encoders never write beyond the output size they were given',
  'Every address encoder writes at most the given output size, and returns 0 without writing when the text might not fit or the payload has an illegal size or version; otherwise it returns the number of characters written, all of which form the specified address text.',
  'every payload, network parameter set and output size', 'Tests pass ample buffers.',
  ['src/btc/address.c'], [('size checks before encoding', 'src/btc/address.c')])
P('C11', 'Compressed unsigned integers are unique, complete and round-trip',
  'Encoding a 64-bit value produces 1 to 10 bytes, and exactly one byte string encodes each value. '
  'Decoding an encoding returns the value and the bytes used whatever follows it; incomplete input and strings representing values beyond 64 bits are refused with 0, and nothing beyond the given size is read.',
  'every 64-bit value, every byte string', 'Tests sample values; length boundaries, truncation and overflow are statements over 2^64 values and all strings.',
  ['src/compress_integer.c', 'include/fingera_libc/compress_integer.h'], [('continuation-bit coding', 'src/compress_integer.c')])
P('C12', 'Compressed signed integers round-trip for the full 64-bit range',
  'Signed encoding maps every 64-bit signed value to its own compressed byte string, values of small magnitude to short ones, and decoding returns the value; incomplete or overlong input is refused as in the unsigned form.',
  'every signed 64-bit value, every byte string', 'Tests sample values; the extreme values and every decoded pattern are outside them.',
  ['src/compress_integer.c'], [('zigzag mapping', 'src/compress_integer.c')])
P('C13', 'SHA-1 and RIPEMD-160 compute the standard digests for every message',
  'For every message the SHA-1 and RIPEMD-160 functions write the 20-byte digest of FIPS 180-4 and of the RIPEMD-160 specification respectively, and nothing else.',
  'every message of every length below 2^61 bytes', 'Test vectors cover a few lengths; padding and block boundaries, and every bit of the state, depend on all messages.',
  ['src/hash/sha1.c', 'src/hash/ripemd160.c'], [('compression function', 'src/hash/sha1.c'), ('compression function', 'src/hash/ripemd160.c'), ('padding', 'src/hash/sha1.c')])
P('C14', 'SHA-256 and SHA-512 compute the standard digests for every message',
  'For every message the SHA-256 and SHA-512 functions write the digest defined by FIPS 180-4 (32 and 64 bytes), and nothing else.',
  'every message of every length below 2^61 bytes', 'Test vectors cover a few lengths; padding and block boundaries, and every bit of the state, depend on all messages.',
  ['src/hash/sha2.c'], [('compression functions', 'src/hash/sha2.c'), ('padding and finalisation', 'src/hash/sha2.c')])
P('C15', 'HMAC-SHA-256 and HMAC-SHA-512 compute RFC 2104 for every key and message',
  'For every key and message the HMAC functions write the RFC 2104 value: keys longer than a block are hashed first, shorter ones zero-padded, and inner and outer digests use the ipad and opad keys.',
  'every key length and content, every message', 'Vectors have few key lengths; the block-size boundary and every key byte are not covered.',
  ['src/hash/sha2.c'], [('key preparation, inner and outer hash', 'src/hash/sha2.c')])
P('C16', 'The Bitcoin composite hashes are the specified compositions',
  'HASH160 is RIPEMD-160 of SHA-256, HASH256 is SHA-256 twice, the 64-byte batch form equals HASH256 of every 64-byte block, and the BIP 32 hash is HMAC-SHA-512 of the chain code over header, 32 data bytes and the big-endian child number.',
  'every message, every number of blocks, every chain code, header, data and child number', 'The specialised batch code has precomputed constants that a sampled test can miss; the others are tested on one vector.',
  ['src/btc/hash.c', 'src/hash/sha2.c'], [('composition', 'src/btc/hash.c'), ('double SHA-256 of 64-byte blocks', 'src/hash/sha2.c')])
P('C17', 'Private key text (WIF) round-trips and only well-formed texts are accepted',
  'Encoding a private key gives the Base58Check text of network prefix, key and - for compressed keys - a byte 1. '
  'Decoding accepts exactly such texts for the network, returns the key and the compression flag, and refuses everything else without overrunning its buffers.',
  'every key, network parameter set and text', 'Two vectors are tested; lengths, prefixes and suffix bytes outside them are not.',
  ['src/btc/key.c'], [('text form of private keys', 'src/btc/key.c')])
P('C18', 'Private key DER export and import agree with the SEC 1 layout',
  'Exporting a valid private key writes the complete fixed SEC 1 structure of the announced size (curve parameters, key, public key, compressed or not). '
  'Importing accepts exactly a sequence with 1- or 2-octet long-form length within the input, version 1 and a key string of at most 32 bytes that is a valid key left-padded with zeros, and reads nothing beyond the input.',
  'every key, every byte string', 'Only round trips of a few keys are tested.',
  ['src/btc/key.c'], [('DER export', 'src/btc/key.c'), ('DER import', 'src/btc/key.c')])
P('C19', 'Lax DER signature parsing yields the numbers of the encoding and never overreads',
  'Parsing accepts exactly the byte strings of the tolerant format (sequence tag, ignored sequence length, two integers with short or long lengths below 2^24, trailing bytes ignored) and yields the two 256-bit numbers, or the invalid zero signature when a number is not below the group order. '
  'It never reads outside the input.',
  'every byte string', 'Tests parse well-formed signatures only; length octets, leading zeros and truncation at every position are not covered.',
  ['src/btc/key.c'], [('tolerant DER parser', 'src/btc/key.c')])
P('C20', 'Signatures have low R and verify; verification is insensitive to the sign of S',
  'Signing with a valid key yields a signature whose R is below 2^255 and which comes from the deterministic nonce of the lowest counter that gives such an R. '
  'Verification first brings S into the lower half and then accepts exactly what the curve library accepts for that key and hash.',
  'every key, hash and signature', 'Tests sign a few messages; the retry path and high-S inputs are statements about all of them.',
  ['src/btc/key.c'], [('R grinding', 'src/btc/key.c'), ('S normalisation', 'src/btc/key.c')])
P('C21', 'Private derivation implements BIP 32 for every key, index and depth',
  'The master key and every child private key, normal or hardened, are those of BIP 32: key, chain code, depth one greater, child number and given parent fingerprint. '
  'Derivation beyond depth 255, and of keys for which BIP 32 defines no child, reports failure.',
  'every key, chain code, index, depth and seed', 'The BIP vectors fix a few keys and indices.',
  ['src/btc/key.c', 'src/btc/exkey.c', 'src/btc/hash.c'], [('child derivation', 'src/btc/key.c'), ('extended key bookkeeping', 'src/btc/exkey.c')])
P('C22', 'Public derivation commutes with private derivation',
  'For every extended private key and every normal index, deriving the child and taking its public part gives the same key, chain code, depth and index as taking the public part and deriving from that.',
  'every key, chain code, depth and normal index', 'It relates two code paths for all inputs; the tests follow a few chains.',
  ['src/btc/key.c', 'src/btc/exkey.c'], [('public child derivation', 'src/btc/key.c')])
P('C23', 'Extended key serialisation round-trips in the BIP 32 layout',
  'The 74-byte form holds depth, fingerprint, big-endian child number, chain code and key in that order, and decoding it restores every field. '
  'The text form is its Base58Check text under the network prefix; parsing accepts exactly such texts with the right prefix, length and key prefix byte, and refuses all others without overrunning its buffers.',
  'every extended key, 74-byte string, text and network parameter set', 'Only the BIP vectors are tested.',
  ['src/btc/exkey.c'], [('binary layout', 'src/btc/exkey.c'), ('text form', 'src/btc/exkey.c')])
P('C24', 'Random bytes come entirely from the operating system or the process stops',
  'A request for n random bytes returns only after all n bytes were filled, in order, from the system random device, however the reads are split; if the device cannot be opened, fails or ends - and only then - the process stops instead. '
  'A new private key is the first 32-byte string so obtained that is a valid key, and every opened descriptor is closed.',
  'every request size, every sequence of short reads, end of file and errors', 'Tests cannot make the device return short reads or errors.',
  ['src/random.c', 'src/btc/key.c'], [('read loop', 'src/random.c'), ('key rejection loop', 'src/btc/key.c')], over=('inputs', 'fault_sequences'))
P('C25', 'Heap scratch holding secrets is wiped and released exactly once on every path',
  'Every heap buffer in which base58, Base58Check, private-key and extended-private-key functions hold converted data is overwritten completely before it is freed, freed exactly once, and never leaked - on success and on every failure path.',
  'every input and every return path', 'The content of freed memory is not observable in a test.',
  ['src/base58.c', 'src/btc/base58_check.c', 'src/btc/key.c', 'src/btc/exkey.c', 'src/cleanse.c'], [('overwrite before release', 'src/cleanse.c'), ('scratch buffers', 'include/fingera_libc/sl/buffer.h')])
P('C26', 'The hex dump prints exactly the documented layout',
  'The dump prints the two digits of every byte in order and in the requested case with the fixed grouping blanks and line breaks, followed by one newline, whatever the length.',
  'every buffer content and length, both cases', 'No test looks at the output.',
  ['src/hex.c'], [('dump loop', 'src/hex.c')])
P('C27', 'Key contexts are created, freshly blinded and destroyed exactly once',
  'Initialising creates both curve contexts, blinds the signing one with 32 fresh random bytes that are wiped afterwards, and uninitialising destroys both and leaves the module ready to be initialised again.',
  'every history of init/uninit calls that alternates', 'Leaks, double destruction and missing blinding are invisible to the tests.',
  ['src/btc/key.c'], [('context life cycle', 'src/btc/key.c')], over=('inputs', 'histories'))
P('C28', 'No function reads or writes outside its buffers or touches its inputs',
  'For every input within the documented sizes, each public function reads only within the given inputs, writes only within the given outputs up to the documented capacity, performs no undefined shift or arithmetic, frees what it allocates, and cannot fail an internal assertion.',
  'every input of every function with documented buffer sizes', 'Memory errors at particular lengths and contents are not hit by vectors.',
  ['src/base32.c', 'src/base58.c', 'src/base64.c', 'src/hex.c', 'src/random.c', 'src/compress_integer.c', 'src/btc/address.c', 'src/btc/base58_check.c', 'src/btc/bech32.c', 'src/btc/exkey.c', 'src/btc/key.c', 'src/btc/hash.c', 'src/hash/sha1.c', 'src/hash/sha2.c', 'src/hash/ripemd160.c'],
  [('buffer handling of every function', 'src')])
P('C29', 'Network parameters carry the published prefixes',
  'The main, test and regression network parameter sets hold exactly the published address, secret-key and extended-key prefixes and human-readable parts, with matching sizes.',
  'all three networks, all fields', 'Tests exercise a few fields through encoded strings.',
  ['src/btc/chain_parameters.c'], [('parameter tables', 'src/btc/chain_parameters.c')], over=('configurations',))
P('C30', 'Public key encoding, key identifiers and fingerprints are those of the key',
  'Encoding a public key gives the 33- or 65-byte SEC 1 form and decoding accepts exactly what the curve library accepts; the key identifier is HASH160 of that encoding and the fingerprint its first four bytes, consistently from the private key, the public key and its encoding.',
  'every key and encoding', 'A few keys are tested.',
  ['src/btc/key.c'], [('public key codec', 'src/btc/key.c'), ('identifier and fingerprint', 'src/btc/key.c')])
P('C31', 'Concurrent use of the key module after initialisation is free of interference',
  'Once initialised, key functions called concurrently from several threads with distinct buffers give the results of sequential calls.',
  'every interleaving of calls', 'No test uses threads.', ['src/btc/key.c'], [('shared contexts', 'src/btc/key.c')], over=('schedules',))
P('C32', 'Secret-dependent timing',
  'The time and memory access pattern of key operations does not depend on the secret key.',
  'every pair of keys', 'Timing is not observed by tests.', ['src/btc/key.c', 'src/base58.c'], [('key operations', 'src/btc/key.c')])

NA = {
    'C32': 'A relational timing property of generated machine code and of libsecp256k1; functional contracts on LLVM IR cannot express execution time.',
}
WIP = 'contracts for these functions are not finished yet'


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in T:
            p['title'] = p['title'] if len(p['title']) <= 80 else sys.exit('title too long: ' + p['id'])
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in T:
        i = p['id']
        if i in PROPS:
            checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                               technique='contract-based deductive verification of the LLVM IR compiled from /repo on every run (symbolic execution with loop summaries, SMT, congruence and ANF back ends), lemmas over the contracts, counterexamples replayed on the real code',
                               level='proof', level_note=PROPS[i].get('note', 'Every obligation of every function the property depends on is discharged for all inputs; the concrete executions of the finder are validation only.')))
        else:
            na.append(dict(property=i, reason=NA.get(i, WIP)))
    m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
