#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, obs=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=obs or [], hook_needed=hook)))

PKI='validator/pki/pki.go'; CERT='validator/lib/cert.go'; ROA='validator/lib/roa.go'; CMS='validator/lib/cms.go'
OCTO='cmd/octorpki/octorpki.go'; RRDP='sync/lib/rrdp.go'; RSY='sync/lib/rsync.go'; FETCH='sync/lib/fetch.go'; UTIL='sync/lib/utils.go'

prop('C01','Resource certificates never claim more than their issuers hold',
 "A certificate that is not a trust anchor is accepted as valid only if every IP range and every AS range it states explicitly lies inside the resources of its issuer, where a family (or the AS set) that the issuer inherits is looked up in the issuer's own issuer, and so on up to the trust anchor. A range that no ancestor states explicitly is an overclaim. A correctly signed, current, unrevoked certificate whose ranges are all covered, or inherited, is accepted, unless an object with the same subject key identifier was added before.",
 ['inputs','histories'],'every chain of certificates up to the stated depth, every IPv4/IPv6 prefix, range or inherit marker and every AS number, range or inherit marker in them',
 'TestPKI feeds one fixed certificate chain; no test has an overclaiming or inheriting certificate, and the 2^32/2^128 range boundaries cannot be enumerated.',
 [PKI,CERT],[('ValidateCertificate','walks the issuer chain for IPs and ASNs'),('IsIPRangeInCertificate / IsASRangeInCertificate','containment in one certificate')],
 [dict(name='ValidObjects',meaning='certificates accepted as valid, by subject key')],['Validator.AddCert result','Validator.ValidObjects'])
prop('C02','Only objects signed by a valid current issuer are accepted',
 "A certificate, ROA or manifest that is not a trust anchor is accepted as valid only if an already valid certificate with the matching key identifier signed it, that issuer is a CA, and the evaluation time lies inside its validity window. A trust anchor is accepted only if it is correctly self-signed and its public key equals the key in the trust anchor locator it is fetched for. No rejected object ever appears among the valid objects.",
 ['inputs','histories'],'every order of adding objects, every signer / issuer choice, every validity window and every evaluation time',
 'The tests add one well-formed chain in one order; wrong signer, missing parent, expiry boundaries and TAL mismatch are never tried.',
 [PKI,CERT,'validator/lib/tal.go'],[('AddCert / ValidateCertificate','signature, parent and time checks'),('CheckCertificate','TAL key comparison')],
 [dict(name='ValidObjects',meaning='objects accepted as valid')],['Validator.AddResource / AddCert result','Validator.ValidObjects, ValidROA, ValidManifest'])
prop('C03','Revoked certificates and everything below them are not valid',
 "Once a CRL correctly signed by a valid CA lists a serial number, no certificate with that serial issued by that CA is valid, nor any certificate, ROA or manifest below it, whichever of the CRL and the certificates was added first. A CRL has no effect on certificates of another CA, on unlisted serials, or at all when its signature does not verify.",
 ['histories','inputs'],'every order of adding the CAs, certificates, signed objects and CRLs, and every choice of issuer, serial and CRL signer',
 'No test adds a CRL that revokes anything; the order-dependent cases need histories the tests never build.',
 [PKI],[('AddCRL','signature check, revocation marking'),('InvalidateObject','removal of descendants'),('ValidateCertificate','check against revoked serials')],
 [dict(name='Revoked, CertsSerial',meaning='revoked serials and certificates by issuer and serial')],['ValidObjects, ValidROA, ValidManifest after each step'])
prop('C04','Manifest hash, presence and expiry protect what a CA publishes',
 "With strict hashes, a file listed on a manifest is used only if its content hash equals the listed hash, and if a manifest is outside its validity window while a listed file is processed, or, with strict manifests, if a listed file is missing or unreadable or (with strict hashes) has another hash, the CA that published the manifest and everything below it end up not valid. Files that match a current manifest never invalidate the CA.",
 ['histories','fault_sequences','inputs'],'every combination of present / missing / corrupt listed files, manifest validity windows and strictness settings, and every processing order',
 'The tests never run exploration with a missing or corrupt file; the failures are fault sequences.',
 [PKI],[('Explore','hash comparison and manifest expiry'),('InvalidateManifestParent','invalidation of the CA')],None,['ValidObjects / ValidROA after exploration'])
prop('C05','Published ROA payloads are exactly those of valid ROAs',
 "Every payload in the published ROA list comes from an entry of a ROA that is valid, whose prefix lies inside the resources stated explicitly on that ROA's own certificate, and repeats its origin AS (0 to 2^32-1), prefix, maximum length and trust anchor unchanged. Conversely every such entry is published. No two published payloads have the same prefix, maximum length and AS (one of their trust anchors is named), the optional filter removes exactly IPv4 prefixes longer than /24 and IPv6 prefixes longer than /48, and the count in the metadata is the number of payloads.",
 ['inputs','histories'],'every set of valid ROAs and entries within the bound, with and without the filter',
 'TestFilter checks four fixed rows of the filter; nothing tests list generation, counts or AS range.',
 [OCTO,'cmd/octorpki/filter.go',ROA],[('generateROAList','collects entries'),('filterDuplicates / FilterInvalidPrefixLen','clean-up'),('ValidateIPRoaCertificateList','prefix containment')],
 None,['ROAList.Data','ROAList.Metadata'])
prop('C06','A valid ROA has prefix length <= max length <= family width',
 "A ROA entry is accepted exactly when its maximum length is at least its prefix length and at most 32 for IPv4 or 128 for IPv6; an absent or negative maximum length means the prefix length. An IPv6 prefix inside ::ffff:0:0/96 stands for an IPv4 prefix and is held to 32. A ROA with any rejected entry, or whose content digest or signature is wrong, is not valid.",
 ['inputs'],'every prefix, prefix length and maximum length of either family, including ones read from a DER encoding',
 'TestValidateROAEntry samples a few rows; the full space is 2^160.',
 [ROA,PKI],[('ROAEntry.Validate','bounds'),('ConvertROAEntries','defaulting'),('AddROA','validity')],None,['ROAEntry.Validate','Validator.ValidROA'])
prop('C07','Origin validation gives the RFC 6811 verdict',
 "For any set of validated payloads and any route, the verdict is Valid when some payload covers the route's prefix with an equal origin AS and a maximum length not below the route's length, Invalid when payloads cover the prefix but none matches, and NotFound when none covers it. The payloads reported alongside are exactly the covering ones.",
 ['inputs'],'every set of payloads and every route within the bound, over all IPv4 and IPv6 prefixes and AS numbers',
 'Three tests sample one prefix each; the prefix tree splits and merges nodes depending on shared bits and insertion order.',
 ['ov/ov.go','vendor/github.com/kentik/patricia'],[('NewOV','fills the trees'),('Validate / Filter','looks up and classifies')],None,['OriginValidator.Validate'])
prop('C08','RRDP state advances only after a complete synchronisation',
 "After a successful RRDP synchronisation the stored session and serial equal those of the notification, and the object changes applied are those of the snapshot, or of every delta from the stored serial plus one up to the new serial in increasing order. Deltas are used only when the session is unchanged and no needed delta is missing; otherwise the snapshot is used. If any fetch, parse or storage step fails, an error is returned and session and serial stay as they were, also in the state file from which the next run continues.",
 ['histories','fault_sequences','inputs'],'every stored state, every notification (session, serial, set of deltas) and every failing step within the bound',
 'There is no test of RRDP at all; the failure points and serial arithmetic need fault sequences.',
 [RRDP],[('FetchRRDP','snapshot/delta decision and state update'),('ParseRoot / ParseNode','document decoding')],[dict(name='Serial, SessionID',meaning='last synchronised state')],['RRDPSystem.Serial / SessionID','callback calls'])
prop('C09','Repository content is only ever written inside the cache directory',
 "Whatever URIs an RRDP document, a certificate or a trust anchor locator supplies, a file is written or removed or a directory created, and rsync is pointed, only at a path inside the configured cache directory; a URI that would leave it is refused with an error and no file is changed. A well-formed rsync URI is stored at cache directory / host / path, the same place it is later read from.",
 ['inputs','fault_sequences'],'every URI string up to the stated length',
 'No test calls the write path; path syntax (dot-dot with either separator, at the end, empty elements) has too many forms to sample.',
 [OCTO,RSY,FETCH],[('WriteRsyncFileOnDisk','check and write'),('mustMkdirAll','directory creation'),('GetLocalPath','read mapping')],None,['paths given to the file system'])
prop('C10','An RRDP repository can only publish under the rsync host bound to it',
 "When an RRDP source is tied to an rsync host, objects it publishes or withdraws under any URI that does not begin with that host are ignored and change nothing on disk; an object withdrawn below the host is removed. The first host that claims an RRDP source keeps it: a later certificate that names the same source with another host neither rebinds it nor schedules its fetch.",
 ['inputs','histories'],'every object URI up to the stated length, every pair of certificates and every order of discovery',
 'No test exercises the binding; look-alike hosts and URIs that merely contain the host are unusual inputs.',
 [OCTO],[('ReceiveRRDPFileCallback','host check'),('mainValidation','first-come binding')],[dict(name='rrdpFetchDomain',meaning='host bound to each RRDP source')],['file writes','bound host of each source'])
prop('C11','BER to DER conversion is total, canonical and idempotent',
 "Conversion of any byte string ends with a result or an error, never a crash. An input that is a single definite-length, minimally length-encoded element comes out unchanged, output always uses definite minimal lengths, an indefinite-length element is rewritten with the same tags and contents, and converting a result again gives the same bytes.",
 ['inputs'],'every byte string up to the stated length',
 'No test calls the converter; malformed lengths and nesting are exactly what samples miss.',
 ['validator/lib/ber.go'],[('BER2DER / readObject','parser'),('encodeTo','writer')],None,['BER2DER'])
prop('C12','Address and AS extensions decode to exactly the encoded ranges',
 "Decoding an address-block or AS-identifier extension yields, for each element, exactly the set of addresses or AS numbers its encoding denotes: first and last address of a prefix, or of a range with the trailing bits of the upper bound filled with ones, and inherit markers for the right family. Malformed extensions (bad family, over-long or inverted values, truncated data) are rejected with an error or yield nothing usable, and never crash the decoder or later use of the result.",
 ['inputs'],'every extension value of the stated shapes: symbolic family bytes, bit strings, integers; and arbitrary bytes up to the stated length',
 'The tests encode a few values and never decode hostile ones.',
 [CERT],[('DecodeIPAddressBlock, DecodeIP, DecodeIPMinMax','addresses'),('DecodeASN, DecodeASIdentifier','AS numbers')],None,['decoded ranges'])
prop('C13','Encoding then decoding resources gives the same resources back',
 "Encoding any list of IP prefixes, IP ranges, AS numbers, AS ranges, inherit markers, access descriptions, a single location, ROA entries or manifest content, then decoding the result, yields the same values (grouped by family, in order).",
 ['inputs'],'all lists up to the stated length over all prefixes, ranges, AS numbers and names',
 'The encoding tests encode a handful of values and look at no decoded result.',
 [CERT,ROA,'validator/lib/manifest.go'],[('EncodeIPAddressBlock / EncodeASN / EncodeSIA / EncodeROAEntries / EncodeManifestContent','encoders'),('matching decoders','decoders')],None,['decoded values'])
prop('C14','A signed object is inner-valid only if its digest and signature match',
 "A signed object is reported inner-valid only if exactly the message digest among its signed attributes equals the hash of the content that is decoded, and its signature verifies over those signed attributes with the key of its embedded certificate. Changing the content, an attribute, the signature or the key makes it not inner-valid, and an object made by the library's own signer is inner-valid. Malformed objects give an error, never a crash.",
 ['inputs'],'every content, attribute set, signature and key choice, and every number of signer infos, within the bound',
 'The ROA/manifest tests sign and never validate a tampered object.',
 [CMS,ROA,'validator/lib/manifest.go'],[('CMS.Validate','digest and signature'),('CMS.Sign / EncodeCMS','signer'),('DecodeROA / DecodeManifest','set the verdict')],None,['InnerValid'])
prop('C15','Trust anchor locators parse as RFC 8630 and match only their own key',
 "Parsing a locator returns its URIs in order without comments and the public key given after the first blank line, with either line ending; malformed text is an error, never a crash. Encoding a locator for any RSA key and parsing it gives the same URIs and key, and a certificate matches a locator exactly when it carries the same RSA key.",
 ['inputs'],'every combination of URIs, comment lines, line endings and keys within the bound, and arbitrary text up to the stated length',
 'The tests decode one file and encode one key, never feeding one to the other.',
 ['validator/lib/tal.go'],[('DecodeTAL','parser'),('EncodeTAL','encoder'),('CheckCertificate','key comparison')],None,['decoded TAL','CheckCertificate'])
prop('C16','Exploration processes every discovered file once and terminates',
 "Exploration hands every reachable file to validation, each path at most once however often and by however many manifests or certificates it is named, including cycles, and then stops. Files named only by an object that is not valid are not processed unless following invalid objects is requested.",
 ['histories','inputs'],'every reference graph over the stated number of files, with repeats and cycles, and every validity outcome',
 'TestPKI walks one tree; repeated and cyclic references never occur.',
 [PKI],[('PutFiles / Explore','queue with visited sets'),('ComputePath','path identity')],[dict(name='Explored, ToExploreUnique',meaning='visited and queued paths')],['files requested from the seeker'])
prop('C17','The ROA list is served only when allowed, and caching never hides a change',
 "While waiting for stability is on, the ROA list and the resource list are refused with 503 until a stable state has been reached once, and then stay available. A request is answered 304 only if its tag was issued for exactly the current list generation; two lists with different generation time or count never share a tag. Health is 200 exactly when a stable state is or was reached.",
 ['histories','inputs','configurations'],'every combination of stability flags, wait setting, request tag and list metadata',
 'There is no test of any HTTP handler.',
 [OCTO],[('ServeROAs / ServeResources / ServeHealth','gates'),('validationLoop','flag updates')],[dict(name='Stable, HasPreviousStable',meaning='stability flags')],['HTTP status, headers, body'])
prop('C18','Repository paths map to one well-defined place',
 "A file named on a manifest resolves to the publication point of that manifest joined with its name by exactly one slash; the type of a file follows its extension alone; the host/module of an rsync URI is its first two path elements, and URIs without both are refused; mapping a path to the local tree replaces only the longest mapped prefix at its start, and a manifest naming a file with a parent-directory step in it is refused.",
 ['inputs'],'every path or URI string up to the stated length',
 'Two tests check three strings.',
 [PKI,UTIL,RSY,FETCH,OCTO],[('ComputePath','join'),('DetermineType','extension'),('ExtractRsyncDomainModule / ExtractRsyncDomain / Extract*FromRsyncURL','URI parts'),('GetLocalPath','mapping')],None,['returned strings'])
prop('C19','Every fetch job runs exactly once and fetching always finishes',
 "For any set of RRDP or rsync sources and any number of workers from one up, each source is fetched exactly once per round, the round ends, and no worker outlives it, under every interleaving. Where each rsync repository has one RRDP source, a repository whose RRDP fetch succeeded is not fetched by rsync in that round; one whose fetch failed is, when failover is on and the failure was not an oversized response.",
 ['schedules','fault_sequences','configurations'],'every interleaving at synchronisation points of up to the stated jobs and workers, every success/failure outcome',
 'No test starts the workers; interleavings cannot be sampled reliably.',
 ['cmd/octorpki/rrdp_fetcher.go','cmd/octorpki/rsync_fetcher.go',OCTO],[('worker / done / wait','worker pool'),('rsyncFetchJobManager','pending rsync jobs'),('rrdpError','failover decision')],None,['fetches performed'])
prop('C20','HTTP and RRDP errors surface as errors',
 "A download succeeds only for status 200 with a body that was read completely and, over RRDP, is within the size limit; any other status, transport error or oversized body is an error and its data is not used. RRDP object data that is not valid base64 or a document that is not well-formed XML or not of the expected kind is an error for the whole synchronisation.",
 ['fault_sequences','inputs'],'every status code, body length around the limit and failing step; documents of the stated shapes',
 'No test performs a fetch.',
 [RRDP,OCTO],[('HTTPFetcher.GetXML','status and limit'),('getHTTP','TAL download'),('DecodeRRDPBase64','decoding')],None,['returned error / data'])
prop('C21','Repository URI reduction loses and invents nothing',
 "The set of download roots computed from a set of rsync URIs with host and module covers every URI of the set: each is equal to, or lies below, some root. Every root is a prefix (at element boundaries) of some URI of the set and no root is just a host.",
 ['inputs'],'every set of up to the stated number of URIs',
 'There is no test of it; shared prefixes of every shape matter.',
 [UTIL],[('AddInMap','insertion'),('ReduceMap','reduction')],None,['ReduceMap result'])
prop('C22','A hostile repository cannot crash the validator',
 "Adding any certificate, ROA, manifest or CRL, in any order and in either strictness mode, ends with acceptance or an error: never a crash, a process exit or an endless loop, and later objects are still processed. The same holds for any URI published over RRDP.",
 ['inputs','histories','fault_sequences'],'objects of the stated shapes with missing, repeated or inconsistent parts; URIs up to the stated length',
 'Tests only feed well-formed objects.',
 [PKI,CMS,CERT,ROA,OCTO],[('AddResource and what it calls','object intake'),('WriteRsyncFileOnDisk','RRDP intake')],None,['panics, process exit'])
prop('C23','A stable or iteration-limited state is always reached and reported',
 "Validation is declared stable exactly when a round after the first discovered no new repository, or when the configured maximum number of rounds since the last stable state is exceeded. In one-off mode the result is written when stable is reached, and after every earlier round too if waiting is off, never otherwise, and the process ends once stable.",
 ['histories','configurations'],'every sequence of repository-set changes over the stated number of rounds and every mode / wait / limit setting',
 'The loop is never run by a test.',
 [OCTO],[('validationLoop','round control'),('MainReduce','change detection')],[dict(name='PrevRepos, CurrentRepos',meaning='repositories seen')],['Stable flag','output written'])
prop('C24','A generated CRL lists what was asked, under the issuer key id and number',
 "A CRL created for an issuer decodes to exactly the requested revoked serials and times, the issuer's key identifier, the given number and update times, and a signature over its own contents that verifies with the issuer key and no other.",
 ['inputs'],'every list of revoked serials up to the bound, every key identifier, number and time',
 'No test creates a CRL.',
 ['validator/lib/crl.go'],[('CreateCRL','encoder')],None,['decoded CRL'])
prop('C25','Pages served while a new list is computed show one completed validation',
 "Requests for the ROA list, the resource list and the info page may arrive at any moment of a validation run, without any data race. Each answer is taken from one published result: body, tag and cache lifetime of the ROA list belong together, the lifetime never exceeds the remaining validity of the list served, the figures of the info page (ROA count, validation time, counts for each trust anchor) are those of a completed validation, and once the new list was served the old one is not served again.",
 ['schedules','histories','inputs'],'every schedule of one request (two for the list) against one validation run within the stated number of delays; lists that grow, shrink or stay',
 'There is no test of any handler, let alone concurrent with validation.',
 [OCTO],[('ServeROAs / ServeResources / ServeInfo','readers'),('setROAList / getROAList','publication'),('generateROAList / mainValidation','writer')],[dict(name='ROAList, Resources, stats, LastComputed',meaning='published result')],['HTTP body and headers'])
prop('C26','The resource list is exactly what validated',
 "The resource list (and the counts and repositories of the info page) shows, for each trust anchor, every valid certificate, ROA and manifest exactly once and nothing else: an object that was missing, altered, expired, revoked, overclaiming or below such a one does not appear. Each entry carries the path, hash, key identifiers, validity and resources of that object as it is in the cache, the hash being left out when the file is gone.",
 ['inputs','fault_sequences'],'a repository of several publication points with one of seven faults in any of them; certificates, ROAs and manifests with symbolic fields',
 'No test produces or reads the resource list.',
 [OCTO,PKI],[('generateROAList','entries'),('ServeInfo','counts')],[dict(name='Resources',meaning='entries published')],['resources.json, info page'])
prop('C27','Certificate Transparency gets every complete chain once',
 "With submission to a Certificate Transparency log on, each valid certificate yields one chain, which goes from it through its issuers to its trust anchor and no further, each object once, with the exact bytes in the cache (for a ROA or manifest its embedded certificate). Each chain whose objects can all be read is posted exactly once per round, one with an unreadable object is left out, and no answer of the log and no unreadable object ends the program or keeps the round from finishing.",
 ['inputs','schedules','fault_sequences'],'every issuer tree of the stated size, every mix of readable and unreadable chains, every answer of the log, senders scheduled in any bounded way',
 'No test builds or submits a chain.',
 ['cmd/octorpki/ct.go',OCTO],[('ct','chains'),('SendCertificateTransparency / BatchCT','submission')],None,['requests posted to the log'])
prop('C28','The offline validator lists what is valid at the time asked for',
 "localrpki writes a list of exactly the payloads (AS number, prefix, maximum length, URI of the ROA in its repository) of the ROAs in its mirror that are valid at the validation time asked for (now, a Unix time or an RFC 3339 date), whether it follows manifests or explores directories, and whatever the wall clock says: all objects on the way to the trust anchor are in their validity at that time, and, when manifests are followed with strict hashes, so is the manifest of the issuing CA. A locator or anchor that is missing hides nothing below another one. A time that cannot be understood ends the program without a list.",
 ['inputs','configurations'],'every validation time (symbolic Unix time, dates with offsets, the present), every combination of the manifest and strictness settings, locators with and without anchors, every AS number of a size',
 'No test runs the offline validator, and none validates at a time other than the present.',
 ['cmd/localrpki/localrpki.go','sync/lib/fetch.go','validator/pki/pki.go'],[('main','options, exploration, list'),('LocalFetch','mirror'),('Explore','manifest window')],None,['the file written'])
prop('C29','The Certificate Transparency tool sends every complete chain once',
 "A run of ctrpki posts, for each valid certificate in its mirror (for a ROA or manifest its embedded certificate), exactly one chain to the log: from it through its issuers to its trust anchor and no further, each object once, with the bytes in the mirror. This holds for any number of locators, also when some yield nothing, for any number of sending threads, and whatever order they run in: all chains have been posted when the program ends. A chain with an object that cannot be read is left out; the others are still sent.",
 ['inputs','schedules','fault_sequences'],'every kind of trust anchor identifier, locators with and without anchors, zero to two senders under every bounded schedule, objects that vanish while chains are sent',
 'No test runs the tool.',
 ['cmd/ctrpki/ctrpki.go'],[('main','exploration, chains, queue'),('BatchCertificateTransparency','sender')],None,['requests posted to the log'])
prop('C30','A signed list carries signatures over exactly what it says',
 "When signing is on, every ROA list that octorpki publishes carries two signatures made with the configured key that the reader's check (prefixfile.CheckFile) accepts for that very list: one over its payloads as published, after filtering and removal of duplicates, and one over those together with its generation and validity times. This holds for every list of a run, an empty one included: a list never carries the signatures of another list or of its own data before clean-up. When signing is off, a list carries none.",
 ['inputs','histories','configurations'],'every list computed in a short run, from any ROAs within the bound, with and without filter and signing',
 'No test signs a list.',
 ['cmd/octorpki/octorpki.go'],[('generateROAList','when the list is signed'),('signROAList','what is stored where')],None,['ROAList.Metadata.Signature','ROAList.Metadata.SignatureDate','the list page'])
prop('C31','Publication and setup messages decode to what they say',
 "A publication message (RFC 8181), child request, parent response, publisher request or repository response (RFC 8183) decodes to its version, its type or handles, and exactly one entry for each element in it, in their order, each with the element's own name, hash, tag, URI, error code and contents, and nothing carried over from the element before. A message that is cut short anywhere, has another root element or another name space, or contains a damaged element yields an error, however much of it was good. The list query that the package builds is read back as one.",
 ['inputs'],'every sequence of elements within the bound with any attribute values and contents, cut at every position',
 'No test covers the package.',
 ['ca/xml.go'],[('DecodeXMLFull, DecodeXMLCRFull, DecodeXMLPRFull','message'),('DecodeInner','elements'),('NewXMLList','list query')],None,['decoded values'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
