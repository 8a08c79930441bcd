NOT_APPLICABLE = {}
NOTES = {
 'C01': dict(note='Proved for all classes, methods, tags (any size) and contents below 2**64 bytes: parser.emit/_dump_header '
             'produce the minimal header, parse/peek/_parse invert it. Trusts PyVC, z3/cvc5 and the base-128 concatenation lemma.'),
 'C02': dict(note='Proved for every byte string, start and depth: parser._parse accepts exactly the well-formed values of the '
             'recursive X.690 specification, returns exactly its slices, raises only ValueError, terminates; parse/peek over that contract.'),
 'C03': dict(note='Proved: the indefinite-length half of the _parse contract (matching end marker, depth limit 10, termination); '
             'the constructed-value load path is covered by bounded runtime contracts.'),
 'C04': dict(note='Proved for every integer and every contents: Integer/Enumerated set/native/int and the util '
             'int_to_bytes/int_from_bytes helpers are the twos-complement spec function and its inverse; maps as bijections.'),
 'C05': dict(note='Proved for OIDs of any length and arcs of any size: ObjectIdentifier.set/dotted against the base-128 spec '
             '(loop induction over arcs and octets); name maps enumerated completely. RelativeOid does not exist in the library.'),
 'C06': dict(note='Proved: BitString/OctetBitString/IntegerBitString set/native/__getitem__/__setitem__ over symbolic bits '
             'for tuples up to 8 symbolic bits plus prefix, ints and bytes of any size; longer tuples bounded.'),
 'C07': dict(note='Proved for every text/byte string/integer: set/native/str/bytes of each string class; codecs assumed to be '
             'injective encoder/decoder pairs, checked separately against reference encoders (T.61 exhaustively).'),
 'C08': dict(note='Proved: Constructable merging and set/dump/copy of chunked string values over symbolic chunk lists (loop '
             'induction over chunks), for every constructable class; nested chunk trees of bounded shape run against an X.690 oracle.'),
 'C18': dict(note='Proved for every address, prefix and octet string: IPAddress set/native/contents and the pure-Python inet helpers; '
             'socket.inet_pton/ntop are assumed externals with an injectivity contract.'),
 'C09': dict(note='Proved for every aware datetime and year-0 datetime (all instants, all offsets) and for every digit of every BER time text '
             'shape: UTCTime/GeneralizedTime.set and native denote the instant. Calendar and timedelta of the standard library are assumed '
             'contracts in integer arithmetic; fractions beyond 9 digits and malformed text are bounded.'),
 'C10': dict(note='Proved for every wall clock, offset and duration: year-0 arithmetic, comparison, hash, construction, replace, astimezone. '
             'tzinfo objects are assumed to have a constant offset; text formatting is checked for every day of year 0.'),
 'C11': dict(note='Discharged for every byte string and every value of the listed declarations (required, optional, default, nested, '
             'choice, tagged, sequence-of): accepted exactly when X.690 assigns fields, those fields, those encodings; sequence-of '
             'parsing for any number of elements by loop induction. Other declarations: bounded random runtime contracts.'),
 'C12': dict(level='other', note='Every history of one or two steps (three in thorough) of every applicable read or write at every level, over symbolic '
             'contents of any size, for eight declarations: obligations discharged by z3, bounded in steps and declarations, so not '
             'called a proof; longer random histories as runtime contracts.'),
 'C13': dict(note='Discharged for every byte string and every value of the listed SET and SET OF declarations, components and elements '
             'supplied in every order; SET OF parsing for any number of elements by induction. The order of byte strings is any total order.'),
 'C14': dict(note='Discharged for every class and every tag number (symbolic), implicit, explicit and twice explicit: encoding, decoding of '
             'every byte string, retag and untag; longer chains, class-level tags, choices and Any for listed declarations.'),
 'C15': dict(level='other', note='For every byte string accepted under the listed declarations and one or two reads: dump returns the bytes, the forced '
             'dump is the DER of the value and is stable (obligations discharged by z3, bounded in declarations and reads); indefinite '
             'lengths, all fixtures and random declarations as runtime contracts.'),
 'C16': dict(level='other', note='Every copy with one write on either side (with a read, write or second copy before it for some declarations, for all in thorough) '
             'over symbolic contents: obligations discharged by z3, bounded in steps and declarations; random histories and all fixtures as '
             'runtime contracts.'),
 'C17': dict(note='Discharged for every byte string: armor writes markers, headers and 64-column lines (loop induction over any number of lines); '
             'unarmor returns exactly the lines between markers for symbolic lines of any content and size in eleven text shapes, and for '
             'any number of body lines by induction. base64 and splitlines are assumed contracts; whole texts as runtime contracts.'),
 'C21': dict(note='Discharged for every integer and byte string: P1363 split and join (with and without width), fill_width (loop induction), '
             'point encode/decode for both point classes, and the key-size formulas of RSA, DSA and EC keys. int.bit_length and '
             'int_to_bytes enter as contracts (the latter discharged in C04). Whole keys and all named curves as runtime contracts.'),
 'C22': dict(note='Discharged by complete case analysis over the tables of the standards (written down independently in oracle/algs.py), with every '
             'octet string and integer among the parameters arbitrary: all accessors of SignedDigestAlgorithm and EncryptionAlgorithm incl. '
             'PBES2, NULL parameters for all seven classes. Wire forms, name tables of all modules and unknown identifiers as exhaustive '
             'runtime contracts.'),
 'C24': dict(note='Discharged for every integer: wrapping RSA (two-prime and multi-prime), RSASSA-PSS and DSA keys gives the standard container with '
             'exactly the integers of the key; EC keys of every named curve and any private integer are encoded at the width of the curve; '
             'sizes, hash family and curve of private and public RSA and DSA keys. Headers and int_to_bytes are contracts (C01, C07). Tagged, '
             'copied and loaded keys, specified curves, raw keys and refusals as runtime contracts.'),
 'C19': dict(level='other', note='Comparison and hash keys of attributes (any type, any prepared value), components and sequences are discharged over contracts '
             'for the equality and hash of their parts, per number of attributes and components (up to 3): equal exactly when the parts match, equal '
             'hash keys exactly when equal. String preparation is compared with an independent RFC 4518 preparation, every short string and '
             'random text, as runtime contracts: bounded, not proved.'),
 'C20': dict(level='other', note='The decision over the names of a certificate is discharged per number of names (up to 3) for every outcome of the wildcard '
             'helpers, and over listed addresses of any octets (up to 2); wildcard matching of one name is checked for every pattern of up to '
             '5 characters and every host of up to 4, whole certificates at random, as runtime contracts: bounded, not proved.'),
 'C26': dict(level='other', note='Equality of domain names and of e-mail addresses is discharged for values of any octets, whole or in chunks. Conversion, URIs and '
             'preservation of wire forms against runtime contracts with an '
             'independent reading of RFC 3986/3987, IDNA and RFC 5280 section 7: every short combination of components, then random values; '
             'bounded, not proved.'),
 'C23': dict(level='other', note='Every accessor and the critical set of all seven structures are discharged for lists of up to 2 (3) extensions with any '
             'identifiers, flags and values, in two orders of access; self_signed, ca, path length and key identifiers for every value and '
             'comparison. Bounded in the number of extensions. Identifiers, classes, URLs, serials and digests against an independent '
             'description of the RFCs as runtime contracts.'),
 'C25': dict(level='other', note='One level of any bytes for compound classes of the library, fields first or native first, with an induction hypothesis for the '
             'values inside (SEQUENCE OF: up to 2 elements); any contents for primitive classes: every outcome is an answer or ValueError, the same '
             'the second time. Times, open types, choices, changed files, odd contents and nesting to 3000 levels as runtime contracts.'),
}
