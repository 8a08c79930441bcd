"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))
A = 'asn1crypto/'
prop('C01', 'DER header encoding is the unique minimal X.690 form and inverts parsing',
 'Emitting a value from any class (0-3), method (0/1), non-negative tag of any size and contents of any length yields exactly one DER header - identifier octets in the shortest form, shortest definite length - followed by the unchanged contents. Parsing that output gives back the same class, method, tag and contents with an empty trailer and consumes every byte. Out-of-range or wrongly typed arguments are refused with ValueError or TypeError instead of producing bytes.',
 ['inputs'], 'every class, method, tag in 0..infinity, and contents of every length',
 'The tests emit a handful of tags (<= a few thousand) and lengths; the header switches form at 31, 128, 16384, ... and at length 128, 256, 65536, ..., so the claim is about all integers.',
 [A+'parser.py', A+'util.py'], [('header encoder', A+'parser.py:_dump_header'), ('argument validation', A+'parser.py:emit'), ('length octets', A+'util.py:int_to_bytes')],
 ['asn1crypto.parser.emit', 'asn1crypto.parser.parse'])
prop('C02', 'Decoding slices any byte string at exact TLV boundaries or raises ValueError',
 'For every byte string, parsing and peeking either raise ValueError or report class, method, tag and a header, contents and trailer that concatenate to a prefix of the input whose length is the reported consumption, with the lengths X.690 assigns to them. Strict parsing additionally refuses trailing bytes, any proper prefix of a definite-length value is refused, non-minimal high tag numbers are refused, and no other exception escapes. Decoding never reads past the end of the data and always terminates.',
 ['inputs'], 'every byte string (well formed, truncated, padded, hostile), strict or not, every start offset used internally',
 'The tests parse a few dozen fixtures and a handful of truncations; memory-safety style bounds and the prefix claim quantify over all byte strings.',
 [A+'parser.py', A+'util.py'], [('recursive header scanner', A+'parser.py:_parse'), ('entry points', A+'parser.py:parse, peek')],
 ['asn1crypto.parser.parse', 'asn1crypto.parser.peek', 'asn1crypto.core.load'])
prop('C03', 'Indefinite-length values end at their matching end marker, to a bounded depth',
 'An indefinite-length value is accepted only when constructed, its contents are a run of complete values, and it ends at the end-of-contents marker that matches its own nesting level, never at a pair of zero bytes inside a nested value. Nesting deeper than the documented limit is refused with ValueError rather than exhausting the stack. A missing end marker is refused.',
 ['inputs'], 'every nesting shape up to and beyond the depth limit, every inner content including 00 00 runs',
 'The tests hold a few nested examples; the matching claim is inductive over nesting depth and run length.',
 [A+'parser.py', A+'core.py'], [('end-of-contents scan with depth counter', A+'parser.py:_parse'), ('chunk merging', A+'core.py:Constructable._merge_chunks')],
 ['asn1crypto.parser.parse', 'asn1crypto.parser.peek', 'Asn1Value.load'])
prop('C04', 'Integers encode as minimal twos complement and decode to the same number',
 'Every Python integer stored in an INTEGER or ENUMERATED value is encoded as the shortest twos-complement big-endian contents and decodes to exactly that integer, and any contents octets decode to the integer they denote. Mapped names and their numbers are interchangeable in both directions; unknown names, unknown enumeration numbers and non-integers are refused with ValueError or TypeError. The fixed-width and unsigned integer-to-bytes helpers are exact inverses of bytes-to-integer on their whole domain.',
 ['inputs'], 'every integer, every contents byte string, every mapped class',
 'Boundaries fall at every power of two; tests sample about twenty integers.',
 [A+'util.py', A+'core.py'], [('integer codec', A+'util.py:int_to_bytes,int_from_bytes'), ('INTEGER', A+'core.py:Integer'), ('ENUMERATED', A+'core.py:Enumerated')],
 ['Integer.native', 'Integer.dump', 'Enumerated.native', 'util.int_to_bytes', 'util.int_from_bytes'])
prop('C05', 'Object identifiers: dotted text and DER contents are inverse bijections',
 'Every dotted OID with a first arc of 0-2, a second arc below 40 under arcs 0 and 1, and non-negative further arcs of any size encodes to the shortest base-128 contents and decodes back to the same dotted text. After assigning a new value, the dotted form, the native value, and the encoded bytes all describe that new value. Malformed dotted text, out-of-range arcs and text that is not an OID are refused with ValueError, and mapped names translate to their OID and back.',
 ['inputs', 'histories'], 'every arc sequence, every contents string, every sequence of reads and assignments on one object',
 'Tests cover about ten OIDs and never re-assign after reading.',
 [A+'core.py'], [('OID set/dotted/native', A+'core.py:ObjectIdentifier'), ('name mapping', A+'core.py:ObjectIdentifier.map,unmap')],
 ['ObjectIdentifier.dotted', 'ObjectIdentifier.native', 'ObjectIdentifier.dump'],
 [('_dotted/_native caches', 'decoded views cached on the object', A+'core.py:ObjectIdentifier')])
prop('C06', 'Bit strings preserve every bit, the bit count and the unused-bit count',
 'Setting a bit string from a tuple of bits, a set of names, an integer or bytes yields contents whose leading octet is the exact number of unused bits and whose decoded value is the value set, with trailing zero bits dropped exactly when the bits are named. Decoding any bit string contents gives the used bits in order and the padding bits separately, and contents with more than 7 unused bits, unused bits but no data, or no leading octet are refused with ValueError. Reading or changing one bit by index or name affects only that bit, also in the encoding.',
 ['inputs', 'histories'], 'every bit sequence and length, every name map, every contents string, every index',
 'Tests use a handful of lengths; alignment has 8 residues and leading/trailing zero runs interact with integer conversion.',
 [A+'core.py'], [('bit tuple codec', A+'core.py:_IntegerBitString,BitString,OctetBitString,IntegerBitString'), ('integer to bit tuple', A+'core.py:_int_to_bit_tuple')],
 ['BitString.native', 'BitString.dump', 'OctetBitString.native', 'IntegerBitString.native', 'unused_bits'])
prop('C07', 'Octet, integer-valued octet and character strings round-trip exactly',
 'Every byte string, every non-negative integer (at its requested width) and every text in the repertoire of the string type stored in an octet or character string value decodes back to exactly itself from the encoded form, whose contents are the value in the encoding the type prescribes (for instance UTF-8, UTF-16BE, UTF-32BE, Latin-1, ASCII, T.61). Assigning a new value replaces every view of the old one: native value, parsed value, text and encoding. Values of the wrong Python type are refused with TypeError, and integers too wide for the fixed width are refused.',
 ['inputs', 'histories'], 'every value and every assign/read sequence, every string type',
 'Tests assign once per object and check a few texts.',
 [A+'core.py', A+'_teletex_codec.py'], [('strings', A+'core.py:AbstractString and subclasses'), ('octet strings', A+'core.py:OctetString,IntegerOctetString,ParsableOctetString,ParsableOctetBitString'), ('T.61 table', A+'_teletex_codec.py')],
 ['native', 'dump', 'parsed', 'bytes()', 'str()'])
prop('C08', 'Chunked (constructed) strings equal their concatenation and re-encode as DER',
 'A string value received as an indefinite-length sequence of chunks, nested to any accepted depth, has the same native value as the single primitive value holding the concatenated chunks. Dumping it after a change, copying it, or a forced dump produces the primitive DER encoding of that value, with no trace of the old header, trailer or chunking. A bit string whose non-final chunk has unused bits is refused with ValueError.',
 ['inputs'], 'every split of every value into chunks, every nesting, every string type',
 'A few fixed splits are tested; the claim is about all splits.',
 [A+'core.py'], [('chunk merging', A+'core.py:Constructable._merge_chunks,_as_chunk'), ('re-encoding on dump', A+'core.py:Asn1Value.dump, Primitive.dump')],
 ['native', 'dump(force=True)', 'copy()'])
prop('C09', 'Time values denote the instant they were given, in canonical form',
 'A timezone-aware datetime stored in a UTCTime (1950-2049) or GeneralizedTime (years 0-9999) decodes to an equal instant (UTCTime keeps whole seconds), and the encoding is the DER form: UTC with a Z suffix, seconds present, four or two zero-padded year digits, and no trailing fraction zeros. Every valid BER time text (omitted seconds, minutes, fractions, offsets) decodes to the instant it denotes, with two-digit years 50-99 in 19xx and 00-49 in 20xx. Naive datetimes, years outside the range and malformed time text are refused with ValueError.',
 ['inputs'], 'every instant, offset and fraction, every time text',
 'Tests list a few dozen times; the year pivot, offsets crossing day and year boundaries and fractional forms are unbounded.',
 [A+'core.py', A+'util.py'], [('time text parser', A+'core.py:AbstractTime._parsed_time'), ('encoders', A+'core.py:UTCTime.set,GeneralizedTime.set')],
 ['UTCTime.native', 'GeneralizedTime.native', 'dump'])
prop('C10', 'Year-zero dates follow the Gregorian calendar and order with real dates',
 'The year-0 date and datetime objects order before every real date of the same kind (aware datetimes by their instant), agree with each other on ordering, equality and hash, and format and report fields as the proleptic Gregorian year 0 (a leap year) does. Adding or subtracting durations moves year-0 datetimes along the same continuous timeline as datetime, so that (a + d) - a equals d and conversion to real datetimes happens exactly when the result reaches year 1. Comparisons of aware values use the instant, not the wall clock.',
 ['inputs'], 'every year-0 date/datetime, every duration, every offset, every comparison partner',
 'Order and arithmetic laws quantify over pairs and triples of dates.',
 [A+'util.py'], [('extended dates', A+'util.py:extended_date,extended_datetime')],
 ['util.extended_date', 'util.extended_datetime'])
prop('C11', 'SEQUENCE values encode and decode field by field, with optional and default',
 'Encoding any assignment of field values of a declared sequence yields the concatenation of the field encodings in declaration order, omitting absent optional fields and fields equal to their default, and decoding that gives back the same fields, with omitted fields reading as their default or absent. A value whose elements do not match the declaration (a missing required field, an element with a wrong tag, or surplus elements) is refused with ValueError, never silently misassigned. Sequence-of values keep their elements in order and count.',
 ['inputs', 'configurations'], 'every declared schema and every assignment of values, every byte string as contents',
 'Tests exercise a few schemas with one or two values each; which subset of optional fields is present is exponential.',
 [A+'core.py'], [('field decode', A+'core.py:Sequence._parse_children,_make_value'), ('field encode', A+'core.py:Sequence._set_contents'), ('elements', A+'core.py:SequenceOf')],
 ['Sequence.load', 'Sequence.dump', 'Sequence.native', 'SequenceOf'])
prop('C12', 'A changed structure always encodes its current contents',
 'After any sequence of reads, assignments, deletions, appends and nested changes to a loaded or constructed structure, its encoding equals the encoding of a structure freshly built from its current values, and decoding that encoding gives those values. Reading fields, native values or encodings never changes what is later encoded. Reading a field after assigning it gives what was assigned.',
 ['histories', 'inputs'], 'every interleaving of reads, writes, deletes and dumps at every nesting level',
 'Laziness and caching make the result depend on the history; tests use one or two fixed histories.',
 [A+'core.py'], [('mutation tracking', A+'core.py:Sequence._is_mutated, contents, _mutated'), ('lazy children', A+'core.py:Sequence._lazy_child, SequenceOf')],
 ['dump', 'native', '__getitem__', '__setitem__', '__delitem__', 'append'],
 [('children/contents/_mutated', 'lazily parsed children, cached contents and the mutation flag', A+'core.py:Sequence,SequenceOf')])
prop('C13', 'SET and SET OF are decoded in any order and encoded in DER order',
 'Encoding a SET yields its present components sorted by tag and a SET OF its elements sorted by their encodings, for every order in which they were supplied, so equal collections give identical bytes. Decoding accepts the components of a SET in any order and assigns each to the field with its tag. A component with an unknown tag or a missing required component is refused with ValueError.',
 ['inputs', 'configurations'], 'every permutation and subset of components, every element multiset',
 'Permutations are not sampled by tests beyond one or two.',
 [A+'core.py'], [('SET', A+'core.py:Set'), ('SET OF', A+'core.py:SetOf')],
 ['Set.dump', 'Set.load', 'SetOf.dump'])
prop('C14', 'Tagging wraps and unwraps exactly, and a value with the wrong tag is refused',
 'A value given implicit or explicit tags (any class, any tag number, any nesting) encodes with exactly those identifiers around the unchanged contents, decodes under the same declaration to an equal value, and removing or replacing the tagging changes nothing but the tagging. Decoding under a declaration whose class, method or tag differs from the data raises ValueError rather than reinterpreting the bytes. A choice selects exactly the alternative whose class and tag match and refuses data that matches none.',
 ['inputs', 'configurations'], 'every tag number, class, nesting of tags and type',
 'Tests use a few tag numbers on a few types; header checks are per combination.',
 [A+'core.py'], [('tag checks', A+'core.py:_build'), ('tag normalisation', A+'core.py:Asn1Value.__init__, _fix_tagging, _tag_type_to_explicit_implicit'), ('choice dispatch', A+'core.py:Choice')],
 ['load', 'dump', 'retag', 'untag', 'Choice.chosen'])
prop('C15', 'Load-then-dump reproduces the bytes; a forced dump is stable, value-true DER',
 'An unmodified value that was loaded from bytes dumps to exactly the bytes it was loaded from (or, for indefinite lengths, to an encoding of the same value), whatever was read from it in between. A forced dump decodes to the same native value, uses definite lengths throughout, and forcing again changes nothing. Data that the library itself encoded loads back to an equal value.',
 ['inputs', 'histories'], 'every loadable byte string for every type, every sequence of reads',
 'Signature verification depends on byte fidelity for arbitrary third-party encodings, not only the fixtures.',
 [A+'core.py'], [('header/contents/trailer retention', A+'core.py:_build, Asn1Value.dump'), ('forced re-encoding', A+'core.py:*.dump(force)')],
 ['load', 'dump', 'dump(force=True)'])
prop('C16', 'Copies are equal and independent',
 'Copying any value gives a value of the same class, tagging, native value and encoding. Changing the copy, at any depth, never changes the original or its encoding, and the other way round. Copies of values whose fields were partly read behave like copies of unread ones.',
 ['histories', 'inputs'], 'every value, every prior read history, every later mutation of either side',
 'Aliasing shows only for particular mutation-after-copy histories.',
 [A+'core.py'], [('copy protocol', A+'core.py:Asn1Value.copy,_copy and overrides')],
 ['copy()', 'copy.copy', 'copy.deepcopy', 'dump'])
prop('C17', 'PEM armoring and unarmoring are inverse and well formed',
 'Armoring any bytes with any type name of letters, digits and single spaces, and any ASCII headers without surrounding white space, gives BEGIN/END lines with that name in capitals, the headers, and base64 in lines of at most 64 columns, and unarmoring gives back exactly that name, those headers and those bytes. Unarmoring accepts surrounding text, CRLF or LF line endings and several consecutive objects, returning each in order. Text without a complete PEM object is refused with ValueError, and detection reports PEM exactly for data containing a PEM begin marker.',
 ['inputs'], 'every byte string length, type name, header set, line ending and number of objects',
 'Tests unarmor a few files; lengths around multiples of 48 bytes and header combinations are unbounded.',
 [A+'pem.py'], [('line state machine', A+'pem.py:_unarmor'), ('armor', A+'pem.py:armor'), ('detect', A+'pem.py:detect')],
 ['pem.armor', 'pem.unarmor', 'pem.detect'])
prop('C18', 'IP addresses and CIDR ranges in names encode to address and mask octets and back',
 'Every IPv4 or IPv6 address, with or without a prefix length in range, encodes to its 4 or 16 address octets followed by the netmask octets when a prefix was given, and decodes to the same address and prefix. Octet strings of any other length, masks that are not a prefix, and prefixes out of range are refused with ValueError. Two addresses compare equal exactly when their octets are equal.',
 ['inputs'], 'every address, every prefix length, every octet string',
 'Tests sample a few addresses; every prefix 0-32 and 0-128 and every malformed length counts.',
 [A+'x509.py', A+'_inet.py'], [('IP codec', A+'x509.py:IPAddress'), ('text conversion', A+'_inet.py')],
 ['x509.IPAddress', '_inet.inet_ntop', '_inet.inet_pton'])
prop('C19', 'Distinguished name comparison is an equivalence that hashing respects',
 'Comparison of names, name components and attribute values is reflexive, symmetric and transitive, ignores letter case and insignificant white space in directory strings, ignores the order of attributes within one multi-valued component, and is sensitive to the order of components, to attribute types and to every other difference. Names that compare equal have equal hash keys, and names that compare different have different hash keys. The string type used for an attribute value does not matter. Values that string preparation (RFC 4518) prohibits are refused with ValueError; components have at least one attribute.',
 ['inputs'], 'every pair and triple of names, every string type and spacing',
 'Equivalence laws quantify over pairs and triples; NIST fixtures give a few dozen pairs.',
 [A+'x509.py'], [('string preparation', A+'x509.py:NameTypeAndValue.prepped_value'), ('comparisons', A+'x509.py:Name,RDNSequence,RelativeDistinguishedName,NameTypeAndValue')],
 ['Name.__eq__', 'Name.hashable', 'Name.sha1'])
prop('C20', 'A certificate is valid for a host exactly when one of its names matches it',
 'A certificate is reported valid for a domain exactly when one of its names equals it case-insensitively or has a wildcard confined to the left-most label that matches exactly that one label, with all other labels equal and the same number of labels. It is valid for an IP address exactly when that address is listed. Common names count only when the certificate has no subject alternative names. A query that is no name (not encodable as IDNA) may be refused with ValueError, and one that is not text with TypeError.',
 ['inputs'], 'every set of certificate names and every queried host',
 'Accepting a wrong host is a security hole; tests query a handful of names.',
 [A+'x509.py'], [('matching', A+'x509.py:Certificate.is_valid_domain_ip,_is_wildcard_domain,_is_wildcard_match'), ('name extraction', A+'x509.py:Certificate.valid_domains,valid_ips')],
 ['Certificate.is_valid_domain_ip', 'Certificate.valid_domains', 'Certificate.valid_ips'])
prop('C21', 'Signature, EC point and key-size conversions are exact for every integer',
 'Converting a DSA/ECDSA signature to its fixed-width r||s form and back preserves r and s, both halves have the same width, and malformed lengths are refused. Encoding an uncompressed EC point and reading its coordinates back gives the same coordinates for every pair of non-negative integers, and other point formats are refused with ValueError. Reported bit sizes of keys are the exact size of the modulus, prime or field (for EC private keys: the curve order) rounded up to whole octets, and byte sizes are that number of octets, for every value.',
 ['inputs'], 'every pair of integers including leading-zero and power-of-two magnitudes, every key parameter set',
 'Leading zeros appear in 1 of 256 signatures; float rounding shows only near powers of two.',
 [A+'algos.py', A+'keys.py', A+'_int.py'], [('P1363 codec', A+'algos.py:DSASignature.from_p1363,to_p1363'), ('points', A+'keys.py:_ECPoint'), ('sizes', A+'keys.py:*.bit_size,byte_size')],
 ['DSASignature', 'ECPoint', 'ECPointBitString', 'PublicKeyInfo.bit_size', 'PrivateKeyInfo.bit_size', 'ECDomainParameters.key_size'])
prop('C22', 'Algorithm identifiers report what their OID and parameters denote',
 'For every supported signature, digest and encryption algorithm identifier, the reported signature algorithm, hash, key derivation, cipher, mode, key length, block size and initialisation vector are those of the standard that defines the OID and parameters, and unsupported ones are refused with ValueError rather than guessed. Algorithms whose parameters must be NULL encode an explicit NULL when given none. Every name in the name tables encodes as one OID that reads back as that name, and every OID in them keeps its identity when it is read and re-encoded.',
 ['inputs', 'configurations'], 'every algorithm in the tables with every parameter value',
 'A wrong entry silently weakens verification; tests touch a minority of the entries.',
 [A+'algos.py'], [('accessors', A+'algos.py:SignedDigestAlgorithm,EncryptionAlgorithm,DigestAlgorithm'), ('null parameters', A+'algos.py:_ForceNullParameters')],
 ['SignedDigestAlgorithm', 'EncryptionAlgorithm', 'DigestAlgorithm'])
prop('C23', 'Extension accessors and the critical set report exactly what is encoded',
 'For certificates, CRLs, CRL entries, requests and OCSP messages, each typed extension accessor returns the parsed value of the extension with that identifier and nothing when it is absent, whatever the order or number of extensions. The set of critical extensions holds exactly the identifiers marked critical. Derived values such as key identifiers, issuer-and-serial strings, distribution point URLs and self-issued status follow from the encoded certificate alone.',
 ['inputs', 'histories'], 'every list of extensions, every access order',
 'Fixture certificates carry only particular combinations and orders.',
 [A+'x509.py', A+'crl.py', A+'ocsp.py', A+'csr.py'], [('extension scan', A+'x509.py:Certificate._set_extensions, crl.py, ocsp.py')],
 ['Certificate.*_value', 'critical_extensions', 'CertificateList.*', 'OCSPResponse.*'])
prop('C24', 'Key containers wrap and unwrap keys without changing them',
 'Wrapping an RSA, DSA or EC key in a generic public or private key container and unwrapping it gives an equal key with the right algorithm and parameters, and the container encodes and decodes to itself. The reported algorithm, curve, hash algorithm and fingerprint-relevant fields are those of the wrapped key. An unsupported algorithm or a key of the wrong type is refused.',
 ['inputs'], 'every key value of each supported algorithm',
 'Tests wrap one or two fixed keys per algorithm.',
 [A+'keys.py'], [('wrapping', A+'keys.py:PrivateKeyInfo.wrap,PublicKeyInfo.wrap,unwrap')],
 ['PrivateKeyInfo', 'PublicKeyInfo', 'ECPrivateKey'])
prop('C25', 'Malformed input fails decoding only with ValueError or TypeError',
 'Loading any byte string as any type and reading its native value, text, fields, parsed contents or encodings either succeeds or raises ValueError; no type, index, key, attribute, overflow or recursion error escapes, however deeply the input is nested. TypeError is only for loading something that is not a byte string. Accessors that compute more than what is encoded (such as key sizes or chosen algorithms) are not meant. A failed load or read leaves other values and later loads unaffected.',
 ['inputs'], 'every byte string for every type in the library',
 'Hostile inputs are unbounded; tests include a few malformed fixtures.',
 [A+'core.py', A+'parser.py', A+'x509.py'], [('decoders', A+'core.py:_build,_parse_build and native properties')],
 ['load', 'native', 'parsed'])
prop('C26', 'Internet names convert between Unicode and ASCII form and compare canonically',
 'Domain names, e-mail addresses and absolute URIs given as Unicode, whose hosts IDNA can encode, are encoded in their ASCII wire form and decode to Unicode that encodes to the same bytes and says the same. Two domain names compare equal exactly when their wire forms differ only in the case of ASCII letters; two e-mail addresses exactly when their mailboxes are identical and their hosts differ only in case; two URIs exactly when they say the same after normalising escapes, the case of scheme and host, default ports and an empty path (an empty user, password, query or fragment counts as absent). Values already in wire form are preserved byte for byte when loaded and dumped, and comparing values never changes them.',
 ['inputs'], 'every domain, address and URI',
 'Tests cover a few IDNs and URIs.',
 [A+'x509.py', A+'_iri.py'], [('IRI conversion', A+'_iri.py'), ('name types', A+'x509.py:DNSName,EmailAddress,URI')],
 ['x509.DNSName', 'x509.EmailAddress', 'x509.URI'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P))
