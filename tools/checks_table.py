LIB, PKI, OCT, SYNC = "validator/lib", "validator/pki", "cmd/octorpki", "sync/lib"

CHECKS["C06"] = {
    "harnesses": [
        H("VerifC06Validate", LIB, "validator_lib/c06.go", 60, reach=["good", "bad", "mapped"], bounds="every IPv4/IPv6 address, prefix length 0..width, every 64-bit maximum length; a second, valid entry before or after"),
        H("VerifC06Convert", LIB, "validator_lib/c06.go", 60, reach=["accepted", "refused", "refused-plain"], bounds="bit strings of every bit length up to width+8, every 64-bit maximum length, or absent"),
    ],
    "bounds": "One or two entries; every address, prefix length and 64-bit maximum length of both families.",
    "outside": "more than two entries in one ROA.",
    "assumptions": ["DER primitives of encoding/asn1 are taken as decoded (C12/C13 run the decoder itself)"],
}

CHECKS["C07"] = {
    "harnesses": [
        H("VerifC07V4All", "ov", "ov/c07.go", 60, 900, qp={"n": 1}, tp={"n": 2}, reach=["valid", "invalid", "notfound"], bounds="up to n IPv4 payloads, every prefix length and address"),
        H("VerifC07V6All", "ov", "ov/c07.go", 60, 600, qp={"n": 1}, reach=["valid", "invalid", "notfound"], bounds="up to n IPv6 payloads, every prefix length and address"),
        H("VerifC07V4", "ov", "ov/c07.go", 60, 600, qp={"n": 2, "lens": 3}, tp={"lens": 0}, reach=["valid", "invalid", "notfound"], bounds="n IPv4 payloads, prefix lengths from a list, every address"),
        H("VerifC07Mixed", "ov", "ov/c07.go", 60, 600, qp={"n": 2, "lens": 4}, reach=["valid", "invalid", "notfound"], bounds="n payloads of either family, prefix lengths from a list, every address"),
        H("VerifC07V4", "ov", "ov/c07.go", 60, 900, params={"shape": 1}, tp={"n": 3, "lens": 3}, bounds="three IPv4 payloads (tree shape only, fixed origins)", thorough_only=True),
    ],
    "bounds": "one payload with every prefix length, two payloads with prefix lengths {1,8,9} (IPv4) or {0,8} and {48} (mixed); every address, origin AS and route; maximum length 0..255.",
    "outside": "three or more payloads (thorough: three with fixed origins), addresses in ::ffff:0:0/96, which this library treats as IPv4.",
    "assumptions": [],
}

CHECKS["C11"] = {
    "harnesses": [
        H("VerifC11Total", LIB, "validator_lib/c11.go", 60, 900, qp={"n": 8}, tp={"n": 11}, reach=["well-formed", "der"], bounds="every byte string of length 0..n"),
        H("VerifC11Long", LIB, "validator_lib/c11.go", 60, reach=["well-formed", "der"], bounds="primitives of 0..257 bytes in short, 1-4 byte long forms (length exact or one off), alone or inside a definite or indefinite element"),
    ],
    "bounds": "every byte string up to 8 bytes (quick) / 11 bytes (thorough), plus elements around the 127/128 and 255/256 length boundaries in three wrappings.",
    "outside": "longer arbitrary inputs; nesting deeper than these lengths allow.",
    "assumptions": [],
}

C1213 = ["validator_lib/der.go", "validator_lib/c12.go", "validator_lib/c13.go"]
CHECKS["C12"] = {
    "harnesses": [
        H("VerifC12IP", LIB, C1213[:2], 60, 300, params={"k": 1, "fams": 1, "step": 1, "step6": 1}, reach=["inherit", "decoded"], bounds="one family; inherit, nothing, or one prefix or range of every bit length of both bounds, every address"),
        H("VerifC12IP", LIB, C1213[:2], 60, 900, qp={"k": 1, "step": 8, "step6": 32}, tp={"k": 2, "step": 9, "step6": 47}, reach=["inherit", "decoded"], bounds="one or two families in either order with up to k elements each, bit lengths in steps"),
        H("VerifC12Hostile", LIB, C1213[:2], 60, reach=["inherit", "rejected", "decoded"], bounds="family of 0..3 symbolic octets; bit strings of 0..136 bits; prefix, either bound of a range, or inherit"),
        H("VerifC12Bytes", LIB, C1213[:2], 60, 900, qp={"n": 10}, tp={"n": 14}, reach=["ip-decoded", "as-decoded"], bounds="every byte string of 0..n bytes given to both decoders, and use of the results"),
        H("VerifC12AS", LIB, C1213[:2], 60, 900, params={"k": 1}, qp={"which": 2}, tp={"which": 3}, reach=["decoded"], bounds="AS numbers or routing domains: inherit, nothing, or one number or range, every value 0..2^32-1"),
        H("VerifC12AS", LIB, C1213[:2], 60, 900, params={"k": 2}, qp={"which": 1, "asbytes": 2}, tp={"which": 3, "asbytes": 2}, reach=["decoded"], bounds="up to two elements below 2^15 (thorough: both AS numbers and routing domains)"),
        H("VerifC12ASHostile", LIB, C1213[:2], 60, reach=["rejected", "decoded"], bounds="integers of 0..9 content octets, as number or either bound"),
    ],
    "bounds": "one element with every bit length (1 or 2 families with coarser bit lengths), every address, every AS number; arbitrary byte strings up to 10 (thorough 14) bytes.",
    "outside": "longer lists, longer arbitrary inputs, addresses inside ::ffff:0:0/96 (which this library reads as IPv4) for the family only.",
    "assumptions": [],
}

CHECKS["C13"] = {
    "harnesses": [
        H("VerifC13IP", LIB, C1213, 60, 300, params={"k": 1, "step6": 1}, reach=["round-trip"], bounds="one prefix of every length, range or inherit marker, every address, IPv4 in 4- or 16-byte form"),
        H("VerifC13IP", LIB, C1213, 60, 900, qp={"k": 2, "step": 8, "step6": 32}, tp={"k": 3, "step": 12, "step6": 64}, reach=["round-trip"], bounds="up to k resources of mixed families, prefix lengths in steps"),
        H("VerifC13AS", LIB, C1213, 60, 900, qp={"k": 1, "krdi": 0}, tp={"k": 1, "krdi": 1}, reach=["round-trip"], bounds="up to k numbers or ranges (every 32-bit value) or inherit, routing domains none, inherit or (thorough) one"),
        H("VerifC13AS", LIB, C1213, 60, 900, qp={"k": 2, "krdi": 1, "asbits": 8}, tp={"k": 2, "krdi": 1, "asbits": 16}, reach=["round-trip"], bounds="two numbers or ranges of asbits bits with routing domains"),
        H("VerifC13ROA", LIB, C1213, 60, 900, qp={"k": 2, "step": 8, "step6": 32}, tp={"k": 2, "step": 1, "step6": 16}, reach=["round-trip"], bounds="up to two entries of mixed families, every address, every maximum length up to 255 (also below the prefix length), prefix lengths in steps, every origin AS"),
        H("VerifC13SIA", LIB, C1213, 60, 900, qp={"k": 2, "len": 3}, tp={"k": 3, "len": 3}, reach=["round-trip"], bounds="up to k descriptions, names of up to len arbitrary bytes, four known methods or a symbolic arc below 2^20"),
        H("VerifC13Access", LIB, C1213, 60, 600, params={"pad": 120}, qp={"len": 3}, tp={"len": 6}, reach=["round-trip"], bounds="one location or policy statement of any 0..len 7-bit characters, alone or after 120 others; key identifiers of 0, 10 or 20 octets"),
        H("VerifC13Manifest", LIB, C1213, 60, 900, qp={"k": 1, "len": 3}, tp={"k": 2, "len": 3, "numlen": 9, "t2": 5}, reach=["round-trip"], bounds="up to k files with 7-bit names of up to len bytes and any 32-byte hash, manifest number of 0, 1, 8 or 20 bytes, times from a list around leap days and the 2050 and 9999 limits"),
    ],
    "bounds": "lists of up to two elements (see each harness).",
    "outside": "longer lists; times outside the list; IPv4-mapped IPv6 addresses.",
    "assumptions": [],
}

PC = "pki/common.go"
C01F, C02F, C03F, C04F = [PC, "pki/c01.go"], [PC, "pki/c02.go"], [PC, "pki/c02.go", "pki/c03.go"], [PC, "pki/c02.go", "pki/c04.go"]
CRYPTO = "RSA and hashes are ideal (no collisions, no forgeries outside what the harness signs); certificates are DER built by the harness and read by the real crypto/x509 and encoding/asn1"
CHECKS["C01"] = {
    "harnesses": [
        H("VerifC01Chain", PKI, C01F, 60, 600, params={"space": 0, "depth": 3}, qp={"plens": 1}, tp={"plens": 0}, reach=["accepted", "refused"], bounds="trust anchor and three certificates; each states one IPv4 prefix or range (every address), inherits, or has none"),
        H("VerifC01Chain", PKI, C01F, 60, 600, params={"space": 1, "depth": 3}, qp={"plens": 1}, tp={"plens": 0}, reach=["accepted", "refused"], bounds="the same for IPv6"),
        H("VerifC01Chain", PKI, C01F, 60, 600, params={"space": 2, "depth": 3}, tp={"depth": 4}, reach=["accepted", "refused"], bounds="the same for AS numbers, one certificate deeper in the thorough tier"),
        H("VerifC01Chain", PKI, C01F, 60, 900, params={"space": 0, "elems": 2, "plens": 1}, qp={"depth": 1}, tp={"depth": 2}, reach=["accepted", "refused"], bounds="issuers with up to two IPv4 elements"),
        H("VerifC01Chain", PKI, C01F, 60, 900, params={"space": 2, "elems": 2}, qp={"depth": 2}, tp={"depth": 3}, reach=["accepted", "refused"], bounds="issuers with up to two AS elements"),
        H("VerifC01Chain", PKI, C01F, 60, 900, params={"leaf": 2, "plens": 1, "depth": 1}, qp={"elems": 1, "space": 0}, tp={"elems": 2, "space": 1}, reach=["accepted", "refused"], bounds="up to two IPv4 elements in the subject (thorough: IPv6, in issuer and subject)"),
        H("VerifC01Chain", PKI, C01F, 90, 600, params={"space": 0, "leaf": 2, "plens": 1}, qp={"depth": 2}, tp={"depth": 3}, reach=["accepted", "refused"], bounds="up to two IPv4 elements in the subject, below a chain that may inherit"),
        H("VerifC01Chain", PKI, C01F, 60, 600, params={"space": 2, "leaf": 2}, qp={"depth": 2}, tp={"depth": 3}, reach=["accepted", "refused"], bounds="the same for AS numbers"),
        H("VerifC01Chain", PKI, C01F, 60, 600, params={"space": 0, "depth": 2, "tainherit": 1, "plens": 1}, reach=["accepted", "refused"], bounds="the trust anchor itself may inherit or have none (IPv4)"),
        H("VerifC01Chain", PKI, C01F, 60, 600, params={"space": 2, "depth": 2, "tainherit": 1}, reach=["accepted", "refused"], bounds="the trust anchor itself may inherit or have none (AS numbers)"),
        H("VerifC01Mixed", PKI, C01F, 60, 600, params={"plens": 1, "mapped": 0}, reach=["accepted", "refused"], bounds="trust anchor with one element of each family or none, an inheriting CA or not, a subject with one element of either family"),
        H("VerifC01Mixed", PKI, C01F, 60, 600, params={"plens": 1, "mapped": 1}, reach=["accepted", "refused"], bounds="the same with IPv6 addresses in ::ffff:0:0/96"),
    ],
    "bounds": "chains of up to 4 certificates (thorough 5) with up to two elements per family, every address and AS number (prefix lengths from a list), every mix of explicit, inherited and absent.",
    "outside": "longer chains, more elements per certificate, non-canonical (overlapping, adjacent or inverted) ranges, IPv6 inside ::/8 for the accepting direction.",
    "assumptions": [CRYPTO],
}
CHECKS["C02"] = {
    "harnesses": [
        H("VerifC02Issuer", PKI, C02F, 90, 600, params={"time": 1}, qp={"windows": 2}, tp={"windows": 4}, reach=["accepted", "refused"], bounds="trust anchor, intermediate certificate (CA or not) and one object of four kinds; every evaluation time, every 20-byte issuer and subject key identifier of the object, windows from a list, three signers"),
        H("VerifC02Issuer", PKI, C02F, 90, 900, params={"time": 0}, qp={"windows": 2}, tp={"windows": 4, "tawin": 1}, reach=["accepted", "refused"], bounds="the same at a fixed time, with a wrongly signed intermediate, corrupted signatures, corrupted signed objects and wrong digests"),
        H("VerifC02TAL", PKI, C02F, 60, reach=["accepted", "refused"], bounds="locator key, certificate key, signer, corruption and CA flag"),
        H("VerifC02Dup", PKI, C02F, 60, reach=["accepted", "refused"], bounds="two objects with one key identifier and a child of either"),
    ],
    "bounds": "three levels, one object at each; every time between 2000 and 2100 against windows from a list of four.",
    "outside": "longer chains (C01 covers depth), windows outside the list, trust anchors without key identifier extensions.",
    "assumptions": [CRYPTO],
}
CHECKS["C03"] = {
    "harnesses": [
        H("VerifC03", PKI, C03F, 90, 600, params={"crls": 1, "serial": 2}, qp={"revoked": 1}, tp={"revoked": 2}, reach=["end", "revoked", "refused"], bounds="two CAs, a CA and a signed object or certificate below one, one below the other; one CRL at any of six moments; every two-octet serial of each certificate and on the CRL, every 20-byte key identifier on the CRL, three signers, corrupted or not"),
        H("VerifC03", PKI, C03F, 90, 900, params={"crls": 1, "leafparent": 1}, qp={"serial": 1, "revoked": 1}, tp={"serial": 9, "revoked": 2}, reach=["end", "revoked", "refused"], bounds="the same with the signed object beside the lower CA"),
        H("VerifC03", PKI, C03F, 120, 900, params={"crls": 2, "serial": 1, "good": 1}, reach=["end", "revoked", "refused"], bounds="two well-formed CRLs of any two of the three CAs (or of one) at any two moments, every one-octet serial"),
        H("VerifC03", PKI, C03F, 90, 900, params={"crls": 2, "serial": 1}, reach=["end", "revoked", "refused"], bounds="two CRLs", thorough_only=True),
        H("VerifC03Other", PKI, C03F, 60, reach=["end"], bounds="CAs whose key identifiers share a prefix of two bytes, with up to two more bytes of any value, and serials whose digits overlap"),
    ],
    "bounds": "six certificates in three levels, one CRL (thorough: two) with one or two entries, every serial of up to two octets.",
    "outside": "larger trees, more CRLs.",
    "assumptions": [CRYPTO],
}
CHECKS["C04"] = {
    "harnesses": [
        H("VerifC04", PKI, C04F, 90, 900, params={"time": 1, "hashforms": 2}, qp={"faults": 1}, tp={"faults": 2}, clock=True, reach=["roa-valid", "roa-dropped"], bounds="four CAs in three levels with three ROAs, each with a manifest; up to n listed files missing, unreadable or listed with any 32-byte hash or none; one manifest with a short window; every current time; both file orders"),
        H("VerifC04", PKI, C04F, 60, 900, params={"hashforms": 4, "strictmft": 0}, qp={"faults": 1}, tp={"faults": 2}, clock=True, reach=["roa-valid", "roa-dropped"], bounds="the same without strict manifests, hashes of other lengths"),
        H("VerifC04", PKI, C04F, 60, 900, params={"stricthash": 0}, qp={"faults": 1}, tp={"faults": 2}, clock=True, reach=["roa-valid", "roa-dropped"], bounds="the same without strict hashes"),
        H("VerifC04", PKI, C04F, 60, 900, params={"addinvalid": 1}, qp={"faults": 1}, tp={"faults": 2}, clock=True, reach=["roa-valid", "roa-dropped"], bounds="the same following files of invalid objects"),
    ],
    "bounds": "four CAs, six listed files, one faulty file (thorough: two), every 32-byte listed hash, every current time between 2017 and 2033.",
    "outside": "larger trees, three or more simultaneous faults, one publication point shared by several CAs.",
    "assumptions": [CRYPTO],
}
CHECKS["C14"] = {
    "harnesses": [
        H("VerifC14Fields", LIB, "validator_lib/c14.go", 90, 900, qp={"odd": 2}, tp={"odd": 3}, reach=["valid", "invalid"], bounds="a ROA or manifest with up to n parts of the signed object unlike a good one at the same time: number of signer infos, certificates and attributes, digest values, signer, signature, algorithm"),
        H("VerifC14Mutate", LIB, "validator_lib/c14.go", 60, 600, params={"kind": 0}, qp={"step": 10, "fine": 1}, tp={"step": 1}, reach=["invalid"], bounds="a signed ROA with one octet replaced by any value (every position of the signed parts, every step-th elsewhere)"),
        H("VerifC14Mutate", LIB, "validator_lib/c14.go", 60, 600, params={"kind": 1}, qp={"step": 10, "fine": 1}, tp={"step": 1}, reach=["invalid"], bounds="the same for a manifest"),
        H("VerifC14Mutate", LIB, "validator_lib/c14.go", 60, 600, params={"kind": 2}, qp={"step": 10, "fine": 1}, tp={"step": 1}, reach=["invalid"], bounds="the same for an XML message"),
        H("VerifC14Sign", LIB, "validator_lib/c14.go", 60, reach=["signed"], bounds="objects made by the library's signer, with every key choice"),
        H("VerifC14Forged", LIB, "validator_lib/c14.go", 60, reach=["forged"], bounds="signatures with a correct head and free padding under a key with exponent 3"),
    ],
    "bounds": "one signed object of each kind, up to two parts odd at once (thorough: three), or one octet of any value.",
    "outside": "several digest attributes at once, several changed octets, other hash algorithms.",
    "assumptions": [CRYPTO],
}
CHECKS["C15"] = {
    "harnesses": [
        H("VerifC15RoundTrip", LIB, "validator_lib/c15.go", 90, 900, qp={"n": 2, "exp": 0}, tp={"n": 3, "exp": 0}, reach=["round-trip"], bounds="RSA moduli of 1..n octets of any value, up to two URIs"),
        H("VerifC15RoundTrip", LIB, "validator_lib/c15.go", 60, 900, params={"n": 1}, tp={"exp": 31}, qp={"exp": 16}, reach=["round-trip"], bounds="every exponent below 2^exp", thorough_only=True),
        H("VerifC15Parse", LIB, "validator_lib/c15.go", 60, 300, qp={"lines": 2, "small": 0}, tp={"lines": 3, "small": 0}, reach=["parsed"], bounds="comment and URI lines of symbolic characters, both line endings, keys over several lines"),
        H("VerifC15Parse", LIB, "validator_lib/c15.go", 60, 300, params={"lines": 1, "small": 1}, reach=["parsed"], bounds="the same with arbitrary characters in the key"),
        H("VerifC15Parse", LIB, "validator_lib/c15.go", 60, params={"lines": 3, "small": -1}, reach=["parsed"], bounds="three lines"),
        H("VerifC15Bytes", LIB, "validator_lib/c15.go", 60, 600, qp={"n": 4}, tp={"n": 6}, bounds="every text of 0..n octets"),
        H("VerifC15DER", LIB, "validator_lib/c15.go", 60, bounds="public keys of other algorithms and malformed key information"),
        H("VerifC15Match", LIB, "validator_lib/c15.go", 60, reach=["match", "differ"], bounds="keys of every 9-octet modulus and 31-bit exponent, by value and by reference"),
    ],
    "bounds": "up to three lines before the key, moduli of up to two octets (thorough three) or every exponent; any text of up to four octets (thorough six).",
    "outside": "longer keys (byte-wise encoding does not depend on the length beyond DER length forms), longer texts.",
    "assumptions": [],
}
CHECKS["C18"] = {
    "harnesses": [
        H("VerifC18Path", PKI, [PC, "pki/c18.go"], 60, 300, qp={"n": 4}, tp={"n": 6}, reach=["path"], bounds="publication points with or without a final slash and names of up to n octets"),
        H("VerifC18Type", PKI, [PC, "pki/c18.go"], 60, 300, qp={"n": 9}, tp={"n": 16}, reach=["typed"], bounds="every file name of up to n octets"),
        H("VerifC18Listed", PKI, [PC, "pki/c18.go"], 60, reach=["listed", "refused"], bounds="file names on a manifest, including ones with ../ and ..\\"),
        H("VerifC18Module", SYNC, "sync_lib/c18.go", 60, 600, qp={"n": 6}, tp={"n": 8}, reach=["refused", "module"], bounds="rsync:// followed by every string of up to n octets, and other strings"),
        H("VerifC18Local", SYNC, "sync_lib/c18.go", 90, 900, qp={"n": 5}, tp={"n": 7}, reach=["mapped", "longest"], bounds="paths of up to n octets below one of two mapped prefixes"),
        H("VerifC18Map", SYNC, "sync_lib/c18.go", 60, reach=["parsed"], bounds="mapping tables in their text form"),
    ],
    "bounds": "names and URIs of up to six octets after a concrete prefix (thorough eight).",
    "outside": "longer names.",
    "assumptions": [],
}
CHECKS["C21"] = {
    "harnesses": [
        H("VerifC21", SYNC, "sync_lib/c21.go", 60, 300, params={"order": 1}, qp={"k": 2, "elems": 4}, tp={"k": 2, "elems": 6}, reach=["reduced"], bounds="up to two URIs of up to four elements, every order of map iteration"),
        H("VerifC21", SYNC, "sync_lib/c21.go", 90, 900, qp={"k": 3, "elems": 3}, tp={"k": 4, "elems": 4}, reach=["reduced"], bounds="up to k URIs of up to elems elements, equal or different in any combination"),
        H("VerifC21Other", SYNC, "sync_lib/c21.go", 60, reach=["other"], bounds="strings without host and module"),
    ],
    "bounds": "up to three URIs of up to three elements (two of four), in every order; thorough: four of four.",
    "outside": "more URIs; element names longer than one character.",
    "assumptions": [],
}
C22F = [PC, "pki/c02.go", "pki/c22.go"]
CHECKS["C22"] = {
    "harnesses": [
        H("VerifC22Bytes", PKI, C22F, 60, 300, params={"places": 4}, qp={"n": 4}, tp={"n": 6}, reach=["refused"], bounds="every file of 0..n octets as each type"),
        H("VerifC22CRL", PKI, C22F, 60, 300, qp={"places": 2}, tp={"places": 4}, reach=["accepted", "refused"], bounds="CRLs with missing, repeated or odd parts"),
        H("VerifC22Cert", PKI, C22F, 90, 600, qp={"places": 1}, tp={"places": 4}, reach=["accepted", "refused"], bounds="certificates with missing, repeated or odd extensions and names"),
        H("VerifC22CMS", PKI, C22F, 60, 900, qp={"places": 1, "odd": 2}, tp={"places": 4, "odd": 3}, reach=["accepted", "refused"], bounds="signed objects with up to n odd parts at the same time"),
        H("VerifC22Mutate", PKI, C22F, 60, 900, params={"type": 1}, qp={"step": 13, "places": 1}, tp={"step": 2, "places": 1}, reach=["refused"], bounds="a certificate with one octet of any value"),
        H("VerifC22Mutate", PKI, C22F, 60, 900, params={"type": 4}, qp={"step": 7, "places": 1}, tp={"step": 1, "places": 1}, reach=["refused"], bounds="a CRL with one octet of any value"),
        H("VerifC22Mutate", PKI, C22F, 60, 900, params={"type": 3}, qp={"step": 13, "places": 1}, tp={"step": 2, "places": 1}, reach=["refused"], bounds="a ROA with one octet of any value"),
        H("VerifC22Mutate", PKI, C22F, 60, 900, params={"type": 2}, qp={"step": 13, "places": 1}, tp={"step": 2, "places": 1}, reach=["refused"], bounds="a manifest with one octet of any value"),
    ],
    "bounds": "one hostile object (then an ordinary one): arbitrary files of up to four octets, structured objects with up to two odd parts (thorough three), or one octet of any value at every 7th-13th position (thorough: every or every other).",
    "outside": "several changed octets at once, chains of hostile objects; a hostile object that takes the subject key identifier of a later one makes that one ignored (see DESIGN.md).",
    "assumptions": [CRYPTO],
}
CHECKS["C24"] = {
    "harnesses": [
        H("VerifC24", LIB, "validator_lib/c24.go", 90, 900, params={"k": 1, "times": 3}, qp={"sizes": 2, "skis": 2}, tp={"sizes": 5, "skis": 3}, reach=["created"], bounds="up to one revoked serial and number of up to sizes lengths with every value, key identifiers of every value"),
        H("VerifC24", LIB, "validator_lib/c24.go", 90, 900, params={"k": 2}, qp={"times": 1, "sizes": 2, "skis": 1}, tp={"times": 2, "sizes": 3, "skis": 2}, reach=["created"], bounds="two revoked serials"),
        H("VerifC24Change", LIB, "validator_lib/c24.go", 60, reach=["changed"], bounds="a created CRL with one octet changed"),
    ],
    "bounds": "up to two revoked serials, times from a list.",
    "outside": "longer lists, other times.",
    "assumptions": [CRYPTO],
}
C16F = [PC, "pki/c02.go", "pki/c04.go", "pki/c16.go"]
CHECKS["C16"] = {
    "harnesses": [
        H("VerifC16", PKI, C16F, 120, 900, params={"mfts": 3, "repos": 1, "crls": 1}, qp={"names": 1, "bad": 1}, tp={"names": 2, "bad": 0, "mfts": 2}, reach=["end", "a", "many"], bounds="trust anchor and two CAs, each CA naming its own, the trust anchor's or the other's manifest; manifests list up to n names with any first character (existing, repeated, cyclic or missing); one object wrongly signed"),
        H("VerifC16", PKI, C16F, 120, 900, params={"mfts": 1, "repos": 2, "names": 1}, qp={"crls": 2, "bad": 0, "slash": 2}, tp={"crls": 2, "bad": 4, "slash": 2, "again": 2}, reach=["end", "a", "many"], bounds="two publication points, with and without a final slash, CRLs named by both CAs"),
        H("VerifC16", PKI, C16F, 120, 900, params={"mfts": 1, "repos": 1, "crls": 1, "again": 2, "addinvalid": 1}, qp={"names": 1, "bad": 4}, tp={"names": 2, "bad": 2}, reach=["end", "a", "many"], bounds="any one object wrongly signed, its names followed all the same; the initial file given twice"),
        H("VerifC16Repo", PKI, C16F, 60, 600, qp={"cas": 3}, tp={"cas": 4}, reach=["repo", "three"], bounds="exploration by publication point: up to three (thorough four) certificates in and naming any of three points"),
    ],
    "bounds": "three certificates, three manifests with one name each (thorough two), any character as the varying part of a name.",
    "outside": "more objects; a manifest listed on a manifest; without manifests, a CRL that is named by a certificate and lies in a listed publication point is read both ways.",
    "assumptions": [CRYPTO],
}
OC = "octo/common.go"
C05F = [OC, "octo/repo.go", "octo/c05.go"]
CHECKS["C05"] = {
    "harnesses": [
        H("VerifC05List", OCT, C05F, 60, 900, params={"roas": 1, "roas2": 1, "octet": 1}, qp={"lens": 2, "wide": 0}, tp={"lens": 2, "wide": 1}, solver="cvc5", clock=True, reach=["published", "filtered"], bounds="two trust anchors with one ROA of one valid and one refused entry each, IPv4 or IPv6, lengths from a list, any maximum length, AS number and one octet of the prefix (ten and three digits; thorough: any), with and without filter and names"),
        H("VerifC05List", OCT, C05F, 60, 900, params={"roas": 1, "roas2": 0, "entries": 2, "wide": 0}, qp={"lens": 3, "octet": 0}, tp={"lens": 7, "octet": 0}, solver="cvc5", clock=True, reach=["published", "filtered"], bounds="one ROA with two entries, more prefix lengths"),
        H("VerifC05List", OCT, C05F, 60, 900, params={"roas": 2, "roas2": 1, "lens": 2, "wide": 0}, solver="cvc5", clock=True, reach=["published", "filtered"], bounds="three ROAs", thorough_only=True),
        H("VerifC05Pipeline", OCT, C05F, 90, 900, qp={"wide": 0}, tp={"wide": 0, "first": 1}, solver="cvc5", clock=True, reach=["published", "checked"], bounds="from the cache to the list: two trust anchors and a child CA with a ROA each (any AS number of ten digits, any second octet with three digits, any maximum length or none; thorough: prefixes outside the certificate too), and one of twelve faults (missing, stale, altered, revoked, expired or wrongly signed objects, resources not held, wrong trust anchor key)"),
    ],
    "bounds": "up to three ROAs below two trust anchors; prefix lengths from a list of seven for each family.",
    "outside": "larger sets; AS numbers and octets with fewer digits in the quick tier; the signature of the output file is C30's.",
    "assumptions": [CRYPTO, "the cache is an in-memory directory tree (natively a scratch directory)"],
}
CHECKS["C17"] = {
    "harnesses": [
        H("VerifC17Gate", OCT, [OC, "octo/c17.go"], 60, reach=["served", "refused"], bounds="every combination of the stability flags, the wait and cache settings and a request tag, for the three pages"),
        H("VerifC17Tag", OCT, [OC, "octo/c17.go"], 60, 900, qp={"genmax": 4294967296, "countmax": 999}, tp={"genmax": 99999999999, "countmax": 99999}, solver="cvc5", reach=["modified", "not modified"], bounds="two successive lists with any generation times and counts of the stated ranges, and the tag of either or another"),
        H("VerifC17Tag", OCT, [OC, "octo/c17.go"], 60, 300, params={"genmin": 1000000000, "genmax": 4294967296}, qp={"countmax": 99999}, tp={"countmax": 9999999}, solver="cvc5", reach=["modified", "not modified"], bounds="the same with generation times of ten digits and larger counts"),
        H("VerifC23Loop", OCT, [OC, "octo/c23.go"], 60, 900, qp={"rounds": 4}, tp={"rounds": 6}, clock=True, reach=["stable", "unstable", "fresh", "finished"], bounds="the validation loop over n rounds with a different repository set found in each, requests after every step"),
    ],
    "bounds": "two successive lists; up to four (thorough six) rounds of the loop.",
    "outside": "requests racing with the loop inside one step (unsynchronised memory access); lists whose metadata lie outside the ranges.",
    "assumptions": ["SHA-256 has no collisions; encoding/json is modelled for the list's types"],
}
CHECKS["C23"] = {
    "harnesses": [
        H("VerifC23Loop", OCT, [OC, "octo/c23.go"], 90, 900, qp={"rounds": 5}, tp={"rounds": 7}, clock=True, reach=["stable", "unstable", "fresh", "finished"], bounds="the validation loop over n rounds: any mode, wait setting and limit, a repository set of any of several kinds found in each round"),
    ],
    "bounds": "five rounds (thorough seven).",
    "outside": "longer histories, certificate transparency.",
    "assumptions": ["fetching is replaced by the sets of repositories it would discover"],
}

C09F = [OC, "octo/c09.go"]
NET = "HTTP servers and the rsync program are modelled (harness/verifenv): any status, body length, read error or exit code; natively a stub transport and a stub program"
FSM = "the cache is an in-memory directory tree without symbolic links (natively a scratch directory)"
CHECKS["C08"] = {
    "harnesses": [
        H("VerifC08", SYNC, "sync_lib/c08.go", 60, 900, params={"faults": 0}, qp={"deltas": 3, "digits": 1}, tp={"deltas": 4, "digits": 2}, reach=["snapshot", "deltas", "few deltas"], bounds="any stored serial (63 bits) and session, any notification serial of up to digits digits or 2^63-1, up to deltas listed deltas with any serials of that kind, in any order"),
        H("VerifC08", SYNC, "sync_lib/c08.go", 60, 600, params={"faults": 0, "deltas": 2}, qp={"digits": 2}, tp={"digits": 4}, reach=["snapshot", "few deltas"], bounds="up to two deltas, longer serials"),
        H("VerifC08", SYNC, "sync_lib/c08.go", 60, 900, params={"faults": 1}, qp={"deltas": 3, "steps": 11}, tp={"deltas": 4, "steps": 14}, reach=["snapshot", "deltas", "few deltas", "failed"], bounds="consecutive deltas listed in either order, any stored serial and session, one failing step of any kind (no answer, cut short, another document, storage, base64) at any point"),
        H("VerifC08State", OCT, [OC, "octo/c19.go"], 60, 300, qp={"jobs": 2}, tp={"jobs": 3}, reach=["advanced", "kept"], bounds="up to jobs sources, each good or failing in one of three ways; state file missing, good, cut short or written by this program; the state here and after loading the file again"),
    ],
    "bounds": "up to three (thorough four) deltas of two objects, one failing step.",
    "outside": "hashes, sessions and serials inside the delta and snapshot files, which this code does not look at; longer delta chains; two failing steps.",
    "assumptions": ["encoding/xml is executed, on documents whose shape is fixed and whose serials are symbolic", NET],
}
CHECKS["C09"] = {
    "harnesses": [
        H("VerifC09Write", OCT, C09F, 60, 900, params={"withdraw": 2}, qp={"n": 5}, tp={"n": 7}, reach=["refused", "written", "stored", "removed"], bounds="ten beginnings (none, rsync:// with host, file, dot-dot, backslash ...) followed by any 0..n bytes, published or withdrawn"),
        H("VerifC09Rsync", OCT, C09F, 60, 600, qp={"n": 4}, tp={"n": 6}, reach=["run", "refused"], bounds="five beginnings followed by any 0..n printable bytes, given to rsync"),
        H("VerifC09TAL", OCT, C09F, 60, 900, qp={"n": 4}, tp={"n": 6}, reach=["written", "refused"], bounds="the same URIs in a trust anchor locator, with and without failover"),
    ],
    "bounds": "URIs of a stated beginning and up to five (thorough seven) arbitrary bytes.",
    "outside": "symbolic links inside the cache (rsync -l would create them) and names longer than the file system allows.",
    "assumptions": [FSM, NET],
}
CHECKS["C10"] = {
    "harnesses": [
        H("VerifC10Callback", OCT, C09F + ["octo/c10.go"], 60, 900, qp={"n": 4}, tp={"n": 7}, reach=["ignored", "changed"], bounds="ten beginnings around the bound host followed by any 0..n bytes, published or withdrawn, in a snapshot or a delta"),
        H("VerifC10Bind", OCT, C09F + ["octo/c10.go", "octo/repo.go"], 90, 900, qp={"k": 2}, tp={"k": 3}, clock=True, reach=["published", "conflict"], bounds="k certificates below a trust anchor, each with one of three hosts (one a look-alike) and one of two sources or none, discovered in any split over two rounds and in either order; then everything the sources publish under five URIs"),
    ],
    "bounds": "two (thorough three) certificates, two RRDP sources, three hosts.",
    "outside": "longer histories; hosts differing in letter case, which are treated as different.",
    "assumptions": [CRYPTO, FSM, NET],
}
C19F = [OC, "octo/c19.go"]
CHECKS["C19"] = {
    "harnesses": [
        H("VerifC19Pool", OCT, C19F, 90, 900, params={"part": 1}, qp={"jobs": 2, "workers": 2, "preempt": 1}, tp={"jobs": 2, "workers": 3, "preempt": 2}, no_replay=True, reach=["done"], bounds="RRDP: 0..jobs sources, 1..workers workers, each source good or failing, every schedule with up to preempt preemptions at synchronisation operations and every choice where a goroutine blocks; data races"),
        H("VerifC19Pool", OCT, C19F, 90, 900, params={"part": 1}, qp={"jobs": 3, "workers": 2, "preempt": 0}, tp={"jobs": 3, "workers": 3, "preempt": 1}, no_replay=True, reach=["done"], bounds="RRDP: three sources"),
        H("VerifC19Pool", OCT, C19F, 90, 900, params={"part": 2}, qp={"jobs": 2, "workers": 2, "preempt": 0}, tp={"jobs": 2, "workers": 2, "preempt": 1}, no_replay=True, reach=["done"], bounds="rsync: the same for the rsync workers, including the goroutine that reads the error output"),
        H("VerifC19Pool", OCT, C19F, 90, 900, params={"part": 3, "preempt": 0}, qp={"jobs": 1, "workers": 2}, tp={"jobs": 2, "workers": 2}, no_replay=True, reach=["done"], bounds="a round of RRDP followed by rsync"),
        H("VerifC19Failover", OCT, C19F, 60, 300, qp={"jobs": 2}, tp={"jobs": 3}, reach=["left", "not left"], bounds="each source good, or its notification or its snapshot unreachable, refused, broken or too large; failover on or off; state file missing, good or broken"),
    ],
    "bounds": "up to three sources, two (thorough three) workers, one (thorough two) preemptions at synchronisation operations.",
    "outside": "more preemptions, sources and workers; weak-memory effects beyond data races, which are reported; two RRDP sources for one rsync repository (the repository is then dropped from rsync if either succeeds).",
    "assumptions": [NET, FSM, "the happens-before race detector makes preemption at synchronisation operations sufficient", "a counterexample that is a schedule is reported with its inputs and steps, not replayed natively"],
}
CHECKS["C20"] = {
    "harnesses": [
        H("VerifC20HTTP", SYNC, "sync_lib/c20.go", 60, 60, reach=["refused", "downloaded", "oversized"], bounds="every status 100..999 except redirects, body lengths 8..16 and 999999999..1000000002, no answer, read error"),
        H("VerifC20URL", SYNC, "sync_lib/c20.go", 60, 300, qp={"n": 3}, tp={"n": 4}, reach=["asked"], bounds="URLs of three beginnings and any 0..n bytes"),
        H("VerifC20TAL", OCT, C09F + ["octo/c20.go"], 60, 120, reach=["stored", "failed"], bounds="two HTTP URIs and an rsync URI in any position or none, every status, no answer or read error, with and without failover"),
        H("VerifC20Base64", SYNC, "sync_lib/c20.go", 60, 600, qp={"n": 4}, tp={"n": 6}, reach=["decoded", "refused"], bounds="every string of 0..n bytes"),
        H("VerifC20Base64", SYNC, "sync_lib/c20.go", 60, 600, params={"full": 1}, qp={"n": 8}, tp={"n": 16}, reach=["decoded", "refused"], bounds="every string of exactly n bytes above 0x20"),
        H("VerifC20Cut", SYNC, "sync_lib/c20.go", 60, 60, reach=["cut", "whole"], bounds="a notification, snapshot and delta cut short at every position"),
        H("VerifC20Byte", SYNC, "sync_lib/c20.go", 60, 900, qp={"all": 0}, tp={"all": 1}, reach=["decoded", "refused"], bounds="the same documents with one byte of the first or last tag replaced by any other"),
        H("VerifC08", SYNC, "sync_lib/c08.go", 60, 900, params={"faults": 1}, qp={"deltas": 2, "steps": 8}, tp={"deltas": 4, "steps": 14}, reach=["snapshot", "failed"], bounds="a whole synchronisation with one failing step of any kind"),
    ],
    "bounds": "see the parts.",
    "outside": "redirects and what net/http does below Client.Do; other document shapes.",
    "assumptions": [NET, FSM],
}
CHECKS["C22"]["harnesses"].append(H("VerifC22URI", OCT, C09F + ["octo/c20.go"], 60, 900, qp={"n": 2}, tp={"n": 5}, reach=["continued", "given up"], bounds="a whole RRDP synchronisation in which one URI (snapshot, published, withdrawn, or the source itself) is one of ten beginnings and any 0..n characters"))

CHECKS["C25"] = {
    "harnesses": [
        H("VerifC25Pages", OCT, [OC, "octo/repo.go", "octo/c25.go"], 90, 300, params={'after': 0, 'preempt': 1}, qp={}, tp={}, clock=True, no_replay=True, reach=["old list", "new list", "old info", "new info", "old resources", "new resources"], bounds="one ROA before, none and another trust anchor's one after; every schedule with up to preempt delays at synchronisation operations; data races"),
        H("VerifC25Pages", OCT, [OC, "octo/repo.go", "octo/c25.go"], 90, 300, params={'after': 1, 'preempt': 1}, qp={}, tp={}, clock=True, no_replay=True, reach=["old list", "new list", "old info", "new info", "old resources", "new resources"], bounds="a list that is replaced by a longer one"),
        H("VerifC25Pages", OCT, [OC, "octo/repo.go", "octo/c25.go"], 200, 900, params={'after': 0, 'tas': 1, 'sym': 0}, qp={'preempt': 2}, tp={'preempt': 3}, clock=True, no_replay=True, reach=["old list", "new list", "old info", "new info", "old resources", "new resources"], bounds="one trust anchor, fixed AS numbers, more delays"),
        H("VerifC25Pages", OCT, [OC, "octo/repo.go", "octo/c25.go"], 90, 900, params={'after': 2, 'preempt': 2, 'sym': 0}, qp={}, tp={}, clock=True, no_replay=True, reach=["old list", "new list", "old info", "new info", "old resources", "new resources"], bounds="two trust anchors, two ROAs after, fixed AS numbers, two delays", thorough_only=True),
    ],
    "bounds": "one validation run, one request (two for the ROA list), one delay with symbolic origin AS numbers, two (thorough three) with fixed ones.",
    "outside": "several runs or clients at once; more delays; weak-memory effects beyond data races, which are reported; one instant of the clock for the run and the requests.",
    "assumptions": [CRYPTO, FSM, "the happens-before race detector makes delays at synchronisation operations sufficient", "a counterexample that is a schedule is reported with its inputs and steps, not replayed natively"],
}
CHECKS["C26"] = {
    "harnesses": [
        H("VerifC26Fields", OCT, [OC, "octo/repo.go", "octo/c26.go"], 60, 120, clock=True, reach=["certificate", "roa", "manifest", "hash"], bounds="a certificate, a manifest and two ROAs with symbolic fields, each with its file there, gone or unknown; every order of every map"),
        H("VerifC26Pipeline", OCT, [OC, "octo/repo.go", "octo/c26.go"], 60, 600, qp={"order": 0}, tp={"order": 1}, clock=True, reach=["certificate", "roa", "manifest"], bounds="two trust anchors, a child authority, ROAs and manifests, no or one of seven faults; thorough: every order of every map"),
    ],
    "bounds": "one repository shape of two trust anchors; one fault.",
    "outside": "several faults at once, other shapes (C02-C04 vary these for validity itself).",
    "assumptions": [CRYPTO, FSM],
}
CHECKS["C27"] = {
    "harnesses": [
        H("VerifC27Chains", OCT, [OC, "octo/repo.go", "octo/c27.go"], 60, 300, qp={"n": 4}, tp={"n": 5}, reach=["done", "long chain"], bounds="n certificates, each issued by any earlier one; the anchor with its own, no or an unknown authority key id; every identifier order"),
        H("VerifC27Send", OCT, [OC, "octo/repo.go", "octo/c27.go"], 60, 600, qp={"chains": 2, "preempt": 1}, tp={"chains": 3, "preempt": 1}, no_replay=True, reach=["sent", "left out"], bounds="chains of six kinds (two readable, four not), one or two senders, four kinds of answer, every schedule with up to preempt delays"),
    ],
    "bounds": "up to four (thorough five) certificates and two (thorough three) chains.",
    "outside": "what the log does with a chain; cmd/ctrpki has its own property (C29).",
    "assumptions": [CRYPTO, FSM, NET],
}

CHECKS["C28"] = {
    "harnesses": [
        H("VerifC28Local", "cmd/localrpki", ["octo/repo.go", "local/c28.go"], 240, 600, clock=True, reach=["listed", "not listed", "no time"], bounds="a trust anchor, a CA and a ROA with validity windows that differ; every Unix time of 2017 to 2042, five dates, the present, three texts that are no time; every setting; with and without an unreadable second locator; with and without a revocation list that only the directory names"),
    ],
    "bounds": "one ROA with one prefix below one CA; AS numbers of ten digits; times to the second.",
    "outside": "several ROAs in a list (C05, C10), other revocation lists (C03), strict CMS decoding (C14), the command-line parsing itself.",
    "assumptions": [CRYPTO, FSM],
}

CHECKS["C29"] = {
    "harnesses": [
        H("VerifC29Tool", "cmd/ctrpki", ["octo/repo.go", "ctrpki/c29.go"], 120, 300, params={"preempt": 0}, clock=True, no_replay=True, reach=["done", "gone"], bounds="a trust anchor, a CA, a ROA and two manifests; an anchor with no, its own or an unknown authority key id; one locator, or two of which one yields nothing; an object that is gone once sending begins; zero to two senders; every choice among runnable senders"),
        H("VerifC29Tool", "cmd/ctrpki", ["octo/repo.go", "ctrpki/c29.go"], 180, 900, params={"small": 1}, qp={"preempt": 1}, tp={"preempt": 2}, clock=True, no_replay=True, reach=["done", "gone"], bounds="the same with one kind of anchor and one locator, and every schedule with up to preempt delays"),
    ],
    "bounds": "five certificates, up to two senders, one (thorough two) delays.",
    "outside": "answers of the log other than a refusal (the client library retries some without end); exploration of directories.",
    "assumptions": [CRYPTO, FSM, NET],
}

C30F = [OC, "octo/repo.go", "octo/c30.go"]
CHECKS["C30"] = {
    "harnesses": [
        H("VerifC30List", OCT, C30F, 60, 900, params={"rounds": 2, "entries": 1}, qp={"roas": 1, "more": 1}, tp={"roas": 2, "more": 2}, clock=True, reach=["signed", "unsigned"], bounds="two lists, one after the other or an hour later, of up to more ROAs each, with any AS number above 2^30, three prefix lengths, two maximum lengths, two validity periods; filter and signing on or off"),
        H("VerifC30List", OCT, C30F, 60, 900, params={"rounds": 1}, qp={"roas": 1, "entries": 2}, tp={"roas": 2, "entries": 2}, clock=True, reach=["signed", "unsigned"], bounds="one list of ROAs with several entries, equal ones included"),
        H("VerifC30List", OCT, C30F, 60, 900, params={"rounds": 1, "entries": 1}, qp={"roas": 2}, tp={"roas": 3}, clock=True, reach=["signed", "unsigned"], bounds="one list of several ROAs, equal ones included"),
    ],
    "bounds": "two lists of up to two payloads (thorough four).",
    "outside": "reading the key from its file; what a reader does with a list whose signature fails.",
    "assumptions": ["ECDSA and SHA-256 are ideal: a signature verifies with its own key and digest only, different contents have different digests"],
}

CHECKS["C31"] = {
    "harnesses": [
        H("VerifC31Messages", "ca", ["ca/c31.go"], 60, 900, params={"cut": 0}, qp={"elements": 2, "len": 1}, tp={"elements": 2, "len": 6}, reach=["decoded", "refused"], bounds="messages of the five kinds with up to elements elements of five kinds and attribute values of any 0..len printable characters, with and without white space; the root element right, of another name space, or another"),
        H("VerifC31Messages", "ca", ["ca/c31.go"], 60, 300, params={"cut": 0, "elements": 1}, qp={"len": 6}, tp={"len": 32}, reach=["decoded", "refused"], bounds="one element, longer values"),
        H("VerifC31Messages", "ca", ["ca/c31.go"], 60, 900, params={"cut": 1, "len": 1}, qp={"elements": 0}, tp={"elements": 1}, reach=["refused"], bounds="the same messages cut short at every position"),
        H("VerifC31Inner", "ca", ["ca/c31.go"], 60, 600, qp={"elements": 2}, tp={"elements": 4}, reach=["decoded", "refused"], bounds="up to elements elements, then none or a damaged one of four kinds"),
        H("VerifC31List", "ca", ["ca/c31.go"], 30, reach=["list"], bounds="the list query"),
    ],
    "bounds": "up to two elements in a message (thorough four where read alone), values of up to six (thorough 32) characters.",
    "outside": "escapes, comments and character data between elements; messages that are encoded, apart from the list query.",
    "assumptions": ["encoding/xml is executed, on documents whose shape is chosen and whose values are symbolic"],
}
