"""The files of /repo/tests/fixtures that hold one encoded value, and the library class each one is."""
import os

DIR = '/repo/tests/fixtures'
TABLE = [
    ('9999-years-rsa-cert.pem', 'x509.Certificate'),
    ('DSAParametersInheritedCACert.crt', 'x509.Certificate'),
    ('admin.ch.crt', 'x509.Certificate'),
    ('aesccm_algo.der', 'algos.EncryptionAlgorithm'),
    ('cms-compressed.der', 'cms.ContentInfo'),
    ('cms-compressed.pem', 'cms.ContentInfo'),
    ('cms-digested.der', 'cms.ContentInfo'),
    ('cms-digested.pem', 'cms.ContentInfo'),
    ('cms-encrypted.der', 'cms.ContentInfo'),
    ('cms-encrypted.pem', 'cms.ContentInfo'),
    ('cms-enveloped.der', 'cms.ContentInfo'),
    ('cms-enveloped.pem', 'cms.ContentInfo'),
    ('cms-signed-digested.der', 'cms.ContentInfo'),
    ('cms-signed-digested.pem', 'cms.ContentInfo'),
    ('cms-signed.der', 'cms.ContentInfo'),
    ('cms-signed.pem', 'cms.ContentInfo'),
    ('eid2011.crl', 'crl.CertificateList'),
    ('example-attr-cert.der', 'cms.AttributeCertificateV2'),
    ('invalid_email_tag.pem', 'x509.Certificate'),
    ('message.der', 'cms.ContentInfo'),
    ('message.pem', 'cms.ContentInfo'),
    ('mozilla-generated-by-openssl.pkcs7.der', 'cms.ContentInfo'),
    ('ocsp-with-pkup.pem', 'x509.Certificate'),
    ('ocsp_request', 'ocsp.OCSPRequest'),
    ('ocsp_response', 'ocsp.OCSPResponse'),
    ('pkcs7-signed-digested.der', 'cms.ContentInfo'),
    ('pkcs7-signed-digested.pem', 'cms.ContentInfo'),
    ('pkcs7-signed.der', 'cms.ContentInfo'),
    ('pkcs7-signed.pem', 'cms.ContentInfo'),
    ('rc2_algo.der', 'algos.EncryptionAlgorithm'),
    ('rc5_algo.der', 'algos.EncryptionAlgorithm'),
    ('rfc3739.crt', 'x509.Certificate'),
    ('scrypt_algo.der', 'algos.EncryptionAlgorithm'),
    ('self-signed-repeated-subject-fields.der', 'x509.Certificate'),
    ('smime-signature-generated-by-thunderbird.p7s', 'cms.ContentInfo'),
    ('test-inter-der.csr', 'csr.CertificationRequest'),
    ('test-inter.csr', 'csr.CertificationRequest'),
    ('test-third-der.csr', 'csr.CertificationRequest'),
    ('test-third.csr', 'csr.CertificationRequest'),
    ('test-tripledes.p12', 'pkcs12.Pfx'),
    ('test-windows-host.csr', 'csr.CertificationRequest'),
    ('tsp_request', 'tsp.TimeStampReq'),
    ('tsp_response', 'tsp.TimeStampResp'),
    ('chromium/ndn.ca.crt', 'x509.Certificate'),
    ('chromium/punycodetest.pem', 'x509.Certificate'),
    ('chromium/subjectAltName_sanity_check.pem', 'x509.Certificate'),
    ('geotrust_certs/Equifax_Secure_Certificate_Authority.crt', 'x509.Certificate'),
    ('geotrust_certs/Equifax_Secure_Certificate_Authority.pem', 'x509.Certificate'),
    ('geotrust_certs/GeoTrust_EV_SSL_CA_-_G4.cer', 'x509.Certificate'),
    ('geotrust_certs/GeoTrust_EV_SSL_CA_-_G4.crt', 'x509.Certificate'),
    ('geotrust_certs/GeoTrust_Primary_CA.crt', 'x509.Certificate'),
    ('geotrust_certs/GeoTrust_Primary_CA.pem', 'x509.Certificate'),
    ('geotrust_certs/GeoTrust_Universal_CA.crt', 'x509.Certificate'),
    ('geotrust_certs/GeoTrust_Universal_CA.pem', 'x509.Certificate'),
    ('geotrust_certs/codex.crt', 'x509.Certificate'),
    ('globalsign_example_keys/IssuingCA-der.cer', 'x509.Certificate'),
    ('globalsign_example_keys/IssuingCA.cer', 'x509.Certificate'),
    ('globalsign_example_keys/IssuingCA.key', 'keys.RSAPrivateKey'),
    ('globalsign_example_keys/SSL1-der.cer', 'x509.Certificate'),
    ('globalsign_example_keys/SSL1.cer', 'x509.Certificate'),
    ('globalsign_example_keys/SSL1.key', 'keys.RSAPrivateKey'),
    ('globalsign_example_keys/SSL2-der.cer', 'x509.Certificate'),
    ('globalsign_example_keys/SSL2.cer', 'x509.Certificate'),
    ('globalsign_example_keys/SSL2.key', 'keys.RSAPrivateKey'),
    ('globalsign_example_keys/SSL3-der.cer', 'x509.Certificate'),
    ('globalsign_example_keys/SSL3.cer', 'x509.Certificate'),
    ('globalsign_example_keys/SSL3.key', 'keys.RSAPrivateKey'),
    ('globalsign_example_keys/rootCA-der.cer', 'x509.Certificate'),
    ('globalsign_example_keys/rootCA.cer', 'x509.Certificate'),
    ('globalsign_example_keys/rootCA.key', 'keys.RSAPrivateKey'),
    ('keys/test-der.crt', 'x509.Certificate'),
    ('keys/test-der.key', 'keys.RSAPrivateKey'),
    ('keys/test-dsa-der.crt', 'x509.Certificate'),
    ('keys/test-dsa-der.key', 'keys.DSAPrivateKey'),
    ('keys/test-dsa.crt', 'x509.Certificate'),
    ('keys/test-dsa.key', 'keys.DSAPrivateKey'),
    ('keys/test-dsa.param', 'keys.DSAParams'),
    ('keys/test-ec-der.crt', 'x509.Certificate'),
    ('keys/test-ec-der.key', 'keys.ECPrivateKey'),
    ('keys/test-ec-named-der.crt', 'x509.Certificate'),
    ('keys/test-ec-named-der.key', 'keys.ECPrivateKey'),
    ('keys/test-ec-named.crt', 'x509.Certificate'),
    ('keys/test-ec-named.key', 'keys.ECPrivateKey'),
    ('keys/test-ec.crt', 'x509.Certificate'),
    ('keys/test-ec.key', 'keys.ECDomainParameters'),
    ('keys/test-ed25519.crt', 'x509.Certificate'),
    ('keys/test-ed25519.key', 'keys.PrivateKeyInfo'),
    ('keys/test-ed448.crt', 'x509.Certificate'),
    ('keys/test-ed448.key', 'keys.PrivateKeyInfo'),
    ('keys/test-inter-der.crt', 'x509.Certificate'),
    ('keys/test-inter.crt', 'x509.Certificate'),
    ('keys/test-pkcs8-der.key', 'keys.PrivateKeyInfo'),
    ('keys/test-pkcs8-dsa-der.key', 'keys.PrivateKeyInfo'),
    ('keys/test-pkcs8-dsa.key', 'keys.PrivateKeyInfo'),
    ('keys/test-pkcs8-ec-der.key', 'keys.PrivateKeyInfo'),
    ('keys/test-pkcs8-ec-named-der.key', 'keys.PrivateKeyInfo'),
    ('keys/test-pkcs8-ec-named.key', 'keys.PrivateKeyInfo'),
    ('keys/test-pkcs8-ec.key', 'keys.PrivateKeyInfo'),
    ('keys/test-pkcs8.key', 'keys.PrivateKeyInfo'),
    ('keys/test-public-der.key', 'keys.PublicKeyInfo'),
    ('keys/test-public-dsa-der.key', 'keys.PublicKeyInfo'),
    ('keys/test-public-dsa.key', 'keys.PublicKeyInfo'),
    ('keys/test-public-ec-der.key', 'keys.PublicKeyInfo'),
    ('keys/test-public-ec-named-der.key', 'keys.PublicKeyInfo'),
    ('keys/test-public-ec-named.key', 'keys.PublicKeyInfo'),
    ('keys/test-public-ec.key', 'keys.PublicKeyInfo'),
    ('keys/test-public-rsa-der.key', 'keys.RSAPublicKey'),
    ('keys/test-public-rsa.key', 'keys.RSAPublicKey'),
    ('keys/test-public-rsapss-der.key', 'keys.PublicKeyInfo'),
    ('keys/test-public-rsapss.key', 'keys.PublicKeyInfo'),
    ('keys/test-public.key', 'keys.PublicKeyInfo'),
    ('keys/test-rc2.p12', 'pkcs12.Pfx'),
    ('keys/test-rsapss-der.key', 'keys.PrivateKeyInfo'),
    ('keys/test-rsapss.crt', 'x509.Certificate'),
    ('keys/test-rsapss.key', 'keys.PrivateKeyInfo'),
    ('keys/test-third-der.crt', 'x509.Certificate'),
    ('keys/test-third.crt', 'x509.Certificate'),
    ('keys/test-validity.crt', 'x509.Certificate'),
    ('keys/test.crt', 'x509.Certificate'),
    ('keys/test.key', 'keys.RSAPrivateKey'),
    ('lets_encrypt/isrgrootx1.pem', 'x509.Certificate'),
    ('lets_encrypt/letsencryptauthorityx1.pem', 'x509.Certificate'),
    ('lets_encrypt/letsencryptauthorityx2.pem', 'x509.Certificate'),
    ('universal/object_identifier.der', 'keys.ECDomainParameters'),
    ('cms-signed-indefinite-length.der', 'cms.ContentInfo'),
    ('meca2_compressed.der', 'cms.ContentInfo'),
    ('smime-signature-generated-by-thunderbird.p7s', 'cms.ContentInfo'),
    ('certbag.der', 'pkcs12.SafeBag'),
]


def get(rel):
    """bytes of a fixture (unarmored without the library)"""
    import base64
    import re
    with open(os.path.join(DIR, rel), 'rb') as f:
        b = f.read()
    m = re.search(b'-----BEGIN [^-]*----- *\r?\n(.*?)-----END', b, re.S)
    return base64.b64decode(m.group(1).replace(b'\n', b'').replace(b'\r', b'')) if m else b


def cls(name):
    import importlib
    mod, c = name.split('.')
    return getattr(importlib.import_module('asn1crypto.' + mod), c)


def every():
    """(file, class name, bytes) without duplicates"""
    from . import x690
    seen = set()
    for rel, c in TABLE:
        b = get(rel)
        b = b[:x690.value_end(b, 0)]
        if (c, b) not in seen:
            seen.add((c, b))
            yield rel, c, b


def look(o, depth=0):
    """nested tuple of everything reachable in a library value: classes, tags and native values"""
    from asn1crypto import core
    head = (type(o).__name__, o.class_, o.tag)
    if isinstance(o, core.Void):
        return head
    if isinstance(o, core.Choice):
        return head + (o.name, look(o.chosen, depth + 1))
    if isinstance(o, core.Any):
        try:
            p = o.parsed
        except (ValueError, TypeError):
            return head + (o.dump(),)
        return head + (look(p, depth + 1),)
    if isinstance(o, core.Sequence):
        if o._fields:
            return head + tuple((f[0], look(o[f[0]], depth + 1)) for f in o._fields)
        o.native
        return head + tuple(look(o[i], depth + 1) for i in range(len(o)))
    if isinstance(o, core.SetOf):
        return head + tuple(sorted((look(x, depth + 1) for x in o), key=repr))
    if isinstance(o, core.SequenceOf):
        return head + tuple(look(x, depth + 1) for x in o)
    if isinstance(o, (core.ParsableOctetString, core.ParsableOctetBitString)):
        b = bytes(o)
        try:
            x = o.parsed
        except (ValueError, TypeError):
            return head + (b,)
        return head + (b, look(x, depth + 1))
    n = o.native
    return head + (sorted(n) if isinstance(n, set) else n,)


PROPS = {}


def properties(o):
    """the public properties of a value, read"""
    t = type(o)
    if t not in PROPS:
        PROPS[t] = sorted(n for k in t.__mro__ for n, v in vars(k).items() if isinstance(v, property) and n[0] != '_')
    out = {}
    for n in PROPS[t]:
        try:
            out[n] = getattr(o, n)
        except Exception:      # decided by C21 - C25
            out[n] = 'refused'
    return out
