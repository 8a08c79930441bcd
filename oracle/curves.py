"""Named curves: name, object identifier and octets of the order of the base point, from ANSI X9.62 annex J (c2*, prime*),
SEC 2 version 1.0 and 2.0 (secp*, sect*) and RFC 5639 (brainpool*).  Bits of the orders: sect113 113, secp112r1 112, secp112r2 110,
secp128r1 128, secp128r2 126, sect131 131, secp160* 161, sect163* 163 or 162, sect193 193, secp224k1 225, secp224r1 224,
sect233k1 232, sect233r1 233, sect239k1 238, sect283k1 281, sect283r1 282, sect409k1 407, sect409r1 409, sect571* 570,
c2pnb163* 163 or 162, c2pnb176w1 161, c2*191* 191 to 189, c2pnb208w1 193, c2*239* 238 to 236, c2pnb272w1 257, c2pnb304w1 289,
c2tnb359v1 353, c2pnb368w1 353, c2tnb431r1 418; the others as their names say."""
CURVES = [
    ('c2pnb163v1', '1.2.840.10045.3.0.1', 21),
    ('c2pnb163v2', '1.2.840.10045.3.0.2', 21),
    ('c2pnb163v3', '1.2.840.10045.3.0.3', 21),
    ('c2pnb176w1', '1.2.840.10045.3.0.4', 21),
    ('c2tnb191v1', '1.2.840.10045.3.0.5', 24),
    ('c2tnb191v2', '1.2.840.10045.3.0.6', 24),
    ('c2tnb191v3', '1.2.840.10045.3.0.7', 24),
    ('c2onb191v4', '1.2.840.10045.3.0.8', 24),
    ('c2onb191v5', '1.2.840.10045.3.0.9', 24),
    ('c2pnb208w1', '1.2.840.10045.3.0.10', 25),
    ('c2tnb239v1', '1.2.840.10045.3.0.11', 30),
    ('c2tnb239v2', '1.2.840.10045.3.0.12', 30),
    ('c2tnb239v3', '1.2.840.10045.3.0.13', 30),
    ('c2onb239v4', '1.2.840.10045.3.0.14', 30),
    ('c2onb239v5', '1.2.840.10045.3.0.15', 30),
    ('c2pnb272w1', '1.2.840.10045.3.0.16', 33),
    ('c2pnb304w1', '1.2.840.10045.3.0.17', 37),
    ('c2tnb359v1', '1.2.840.10045.3.0.18', 45),
    ('c2pnb368w1', '1.2.840.10045.3.0.19', 45),
    ('c2tnb431r1', '1.2.840.10045.3.0.20', 53),
    ('prime192v2', '1.2.840.10045.3.1.2', 24),
    ('prime192v3', '1.2.840.10045.3.1.3', 24),
    ('prime239v1', '1.2.840.10045.3.1.4', 30),
    ('prime239v2', '1.2.840.10045.3.1.5', 30),
    ('prime239v3', '1.2.840.10045.3.1.6', 30),
    ('secp192r1', '1.2.840.10045.3.1.1', 24),
    ('secp256r1', '1.2.840.10045.3.1.7', 32),
    ('sect163k1', '1.3.132.0.1', 21),
    ('sect163r1', '1.3.132.0.2', 21),
    ('sect239k1', '1.3.132.0.3', 30),
    ('sect113r1', '1.3.132.0.4', 15),
    ('sect113r2', '1.3.132.0.5', 15),
    ('secp112r1', '1.3.132.0.6', 14),
    ('secp112r2', '1.3.132.0.7', 14),
    ('secp160r1', '1.3.132.0.8', 21),
    ('secp160k1', '1.3.132.0.9', 21),
    ('secp256k1', '1.3.132.0.10', 32),
    ('sect163r2', '1.3.132.0.15', 21),
    ('sect283k1', '1.3.132.0.16', 36),
    ('sect283r1', '1.3.132.0.17', 36),
    ('sect131r1', '1.3.132.0.22', 17),
    ('sect131r2', '1.3.132.0.23', 17),
    ('sect193r1', '1.3.132.0.24', 25),
    ('sect193r2', '1.3.132.0.25', 25),
    ('sect233k1', '1.3.132.0.26', 29),
    ('sect233r1', '1.3.132.0.27', 30),
    ('secp128r1', '1.3.132.0.28', 16),
    ('secp128r2', '1.3.132.0.29', 16),
    ('secp160r2', '1.3.132.0.30', 21),
    ('secp192k1', '1.3.132.0.31', 24),
    ('secp224k1', '1.3.132.0.32', 29),
    ('secp224r1', '1.3.132.0.33', 28),
    ('secp384r1', '1.3.132.0.34', 48),
    ('secp521r1', '1.3.132.0.35', 66),
    ('sect409k1', '1.3.132.0.36', 51),
    ('sect409r1', '1.3.132.0.37', 52),
    ('sect571k1', '1.3.132.0.38', 72),
    ('sect571r1', '1.3.132.0.39', 72),
    ('brainpoolp160r1', '1.3.36.3.3.2.8.1.1.1', 20),
    ('brainpoolp160t1', '1.3.36.3.3.2.8.1.1.2', 20),
    ('brainpoolp192r1', '1.3.36.3.3.2.8.1.1.3', 24),
    ('brainpoolp192t1', '1.3.36.3.3.2.8.1.1.4', 24),
    ('brainpoolp224r1', '1.3.36.3.3.2.8.1.1.5', 28),
    ('brainpoolp224t1', '1.3.36.3.3.2.8.1.1.6', 28),
    ('brainpoolp256r1', '1.3.36.3.3.2.8.1.1.7', 32),
    ('brainpoolp256t1', '1.3.36.3.3.2.8.1.1.8', 32),
    ('brainpoolp320r1', '1.3.36.3.3.2.8.1.1.9', 40),
    ('brainpoolp320t1', '1.3.36.3.3.2.8.1.1.10', 40),
    ('brainpoolp384r1', '1.3.36.3.3.2.8.1.1.11', 48),
    ('brainpoolp384t1', '1.3.36.3.3.2.8.1.1.12', 48),
    ('brainpoolp512r1', '1.3.36.3.3.2.8.1.1.13', 64),
    ('brainpoolp512t1', '1.3.36.3.3.2.8.1.1.14', 64),
]
