"""What algorithm identifiers denote, from the standards that define them (RFC 3279, 4055, 5758, 8017, 8018, 8410, 7292, 3565, 5084,
5649, 2268, 9688, NIST CSOR, BSI TR-03111, ANSI X9.57/X9.62, OIW)."""
ERR = 'ValueError'
PKCS1 = '1.2.840.113549.1.1.'
NIST = '2.16.840.1.101.3.4.'
SHA2 = [('sha224', 4), ('sha256', 1), ('sha384', 2), ('sha512', 3), ('sha512_224', 5), ('sha512_256', 6), ('sha3_224', 7), ('sha3_256', 8),
        ('sha3_384', 9), ('sha3_512', 10), ('shake128', 11), ('shake256', 12), ('shake128_len', 17), ('shake256_len', 18)]
DIGEST = {'md2': '1.2.840.113549.2.2', 'md5': '1.2.840.113549.2.5', 'sha1': '1.3.14.3.2.26'}
DIGEST.update((n, NIST + '2.%d' % i) for n, i in SHA2)
HMAC = {'des_mac': '1.3.14.3.2.10', 'sha1': '1.2.840.113549.2.7', 'sha224': '1.2.840.113549.2.8', 'sha256': '1.2.840.113549.2.9',
        'sha384': '1.2.840.113549.2.10', 'sha512': '1.2.840.113549.2.11', 'sha512_224': '1.2.840.113549.2.12',
        'sha512_256': '1.2.840.113549.2.13', 'sha3_224': NIST + '2.13', 'sha3_256': NIST + '2.14', 'sha3_384': NIST + '2.15',
        'sha3_512': NIST + '2.16'}
# object identifier -> name, signature algorithm, hash, hash for CMS
SIG = {}
PREFERRED = {}


def sig(oid, name, algo, h, cms=None, preferred=True):
    SIG[oid] = (name, algo, h, cms or h)
    if preferred:
        PREFERRED[name] = oid


RSA, PSS = 'rsassa_pkcs1v15', 'rsassa_pss'
for h, i in (('md2', 2), ('md5', 4), ('sha1', 5), ('sha256', 11), ('sha384', 12), ('sha512', 13), ('sha224', 14)):
    sig(PKCS1 + str(i), h + '_rsa', RSA, h)
sig('1.3.14.3.2.3', 'md5_rsa', RSA, 'md5', None, False)
sig('1.3.14.3.2.29', 'sha1_rsa', RSA, 'sha1', None, False)
sig('1.3.14.7.2.3.1', 'md2_rsa', RSA, 'md2', None, False)
sig('1.2.840.10040.4.3', 'sha1_dsa', 'dsa', 'sha1')
for o in ('1.3.14.3.2.13', '1.3.14.3.2.27'):
    sig(o, 'sha1_dsa', 'dsa', 'sha1', None, False)
for i, h in enumerate(('sha224', 'sha256', 'sha384', 'sha512')):
    sig(NIST + '3.%d' % (1 + i), h + '_dsa', 'dsa', h)
    sig('1.2.840.10045.4.3.%d' % (1 + i), h + '_ecdsa', 'ecdsa', h)
sig('1.2.840.10045.4.1', 'sha1_ecdsa', 'ecdsa', 'sha1')
for i, h in enumerate(('sha3_224', 'sha3_256', 'sha3_384', 'sha3_512')):
    sig(NIST + '3.%d' % (5 + i), h + '_dsa', 'dsa', h)
    sig(NIST + '3.%d' % (9 + i), h + '_ecdsa', 'ecdsa', h)
    sig(NIST + '3.%d' % (13 + i), h + '_rsa', RSA, h)
for i, h in ((1, 'sha1'), (2, 'sha224'), (3, 'sha256'), (4, 'sha384'), (5, 'sha512'), (8, 'sha3_224'), (9, 'sha3_256'), (10, 'sha3_384'),
             (11, 'sha3_512')):
    sig('0.4.0.127.0.7.1.1.4.1.%d' % i, h + '_ecdsa_plain', 'ecdsa', h)
sig(PKCS1 + '1', RSA, RSA, ERR)
sig('1.2.840.10040.4.1', 'dsa', 'dsa', ERR)
sig('1.2.840.10045.4', 'ecdsa', 'ecdsa', ERR)
sig('1.3.101.112', 'ed25519', 'ed25519', ERR, 'sha512')
sig('1.3.101.113', 'ed448', 'ed448', ERR, 'shake256')
PSS_OID = PKCS1 + '10'

# encryption: name -> oid, kind of parameters, key length, cipher, mode, block size; ERR where the accessor refuses.
# A list gives the answers a correct implementation may give.
ENC = {}


def enc(name, oid, params, key, cipher, mode, block, iv):
    ENC[name] = dict(oid=oid, params=params, key_length=key, encryption_cipher=cipher, encryption_mode=mode, encryption_block_size=block, encryption_iv=iv)


for bits, base in ((128, 0), (192, 20), (256, 40)):
    for i, (mode, params, iv) in enumerate((('ecb', 'none', None), ('cbc', 'octets', 'iv'), ('ofb', 'octets', 'iv'), ('cfb', 'any', ERR), ('wrap', 'none', None),
                                            ('gcm', 'any', ERR), ('ccm', 'ccm', ERR), ('wrap_pad', 'none', None))):
        enc('aes%d_%s' % (bits, mode), NIST + '1.%d' % (base + 1 + i), params, bits // 8, 'aes', mode, 16, iv)
enc('des', '1.3.14.3.2.7', 'octets', 8, 'des', 'cbc', 8, 'iv')
enc('tripledes_3key', '1.2.840.113549.3.7', 'octets', 24, 'tripledes', 'cbc', 8, 'iv')
enc('rc2', '1.2.840.113549.3.2', 'rc2', 'version', 'rc2', 'cbc', 8, 'iv')
enc('rc4', '1.2.840.113549.3.4', 'none', ERR, [ERR, 'rc4'], [ERR, None], [ERR, 0], None)
enc('rc5', '1.2.840.113549.3.9', 'rc5', ERR, 'rc5', 'cbc', 'block', 'iv')
P5, P12 = '1.2.840.113549.1.5.', '1.2.840.113549.1.12.1.'
for i, h, c in ((1, 'md2', 'des'), (3, 'md5', 'des'), (4, 'md2', 'rc2'), (6, 'md5', 'rc2'), (10, 'sha1', 'des'), (11, 'sha1', 'rc2')):
    enc('pbes1_%s_%s' % (h, c), P5 + str(i), 'pbes1', 8, c, 'cbc', 8, None)
for i, n, c, k, m, b in ((1, 'rc4_128', 'rc4', 16, None, 0), (2, 'rc4_40', 'rc4', 5, None, 0), (3, 'tripledes_3key', 'tripledes', 24, 'cbc', 8),
                         (4, 'tripledes_2key', 'tripledes', 16, 'cbc', 8), (5, 'rc2_128', 'rc2', 16, 'cbc', 8), (6, 'rc2_40', 'rc2', 5, 'cbc', 8)):
    enc('pkcs12_sha1_' + n, P12 + str(i), 'pbes1', k, c, m, b, None)
enc('rsaes_pkcs1v15', PKCS1 + '1', 'null', ERR, ERR, ERR, ERR, ERR)
enc('rsaes_oaep', PKCS1 + '7', 'oaep', ERR, ERR, ERR, ERR, ERR)
PBES2 = P5 + '13'


def kdf(name):
    """kdf, kdf_hmac of the password based schemes with fixed algorithms"""
    if name.startswith('pbes1_'):
        return 'pbkdf1', name.split('_')[1]
    if name.startswith('pkcs12_'):
        return 'pkcs12_kdf', 'sha1'
    return ERR, ERR


def rc2_key(version):
    """octets of the effective key, RFC 8018 B.2.3; absent: 32 bits"""
    if version is None:
        return 4
    if version in (160, 120, 58):
        return {160: 5, 120: 8, 58: 16}[version]
    if version >= 256:
        return -(-version // 8)
    return ERR


# parameters that must be NULL when not given (RFC 3279, 3370, 4055, 8017, 9688)
NULLS = [PKCS1 + str(i) for i in (1, 2, 4, 5, 11, 12, 13, 14)] + [NIST + '3.%d' % i for i in (13, 14, 15, 16)] + [
    DIGEST[n] for n in ('md2', 'md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512')]
# parameters that must be absent (RFC 5758, 8410, 3565, 8702)
ABSENT = [o for o, v in SIG.items() if v[1] in ('dsa', 'ecdsa', 'ed25519', 'ed448') and o not in ('1.2.840.10040.4.1', '1.2.840.10045.4')] + [
    e['oid'] for e in ENC.values() if e['params'] == 'none'] + [DIGEST[n] for n in DIGEST if n.startswith('sha3') or n.startswith('shake')]
