#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties that have a check in props/)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state or [], observe=observe or []))


prop('C01', 'A relying party accepts only assertions its provider made for it',
     'Completing a login succeeds only if the response is a positive assertion whose required fields (and, for OpenID 2, the endpoint, return_to, nonce and association handle; identity and claimed identifier when present) are all covered by a signature that verifies with a live association shared with that provider, or that the provider itself confirmed when asked directly, '
     'whose return_to is the URL at which the response arrived (same location, and every query argument of return_to arrived with the same value), and whose provider endpoint is the discovered one. '
     'Any alteration of a signed field, of the signature, of the list of signed fields, of the handle or of the return_to arguments, an expired association, or a refused or failed direct verification leads to a failure and never to success.',
     ['inputs', 'histories', 'configurations'], 'All genuine responses of a model provider (OpenID 1.0, 1.1 and 2.0; association or stateless; with and without extensions) and all alterations of them, all association states of the store.',
     'Tests check a few fixed responses with stubbed-out verification steps; the guarantee is over every forged response.',
     ['openid/consumer/consumer.py', 'openid/association.py', 'openid/message.py'],
     [('GenericConsumer.complete', 'openid/consumer/consumer.py'), ('_idResCheckSignature, _verifyReturnToArgs, _checkReturnTo, _idResCheckForFields, _processCheckAuthResponse', 'openid/consumer/consumer.py'), ('Association.checkMessageSignature', 'openid/association.py')],
     'generated genuine and tampered assertions from an independent model provider, oracle by construction', 'Exploration: every generated forgery must fail and every genuine response succeed; HMAC and the transport are assumed secure.')

prop('C02', 'A genuine login completes between the library\'s relying party and provider',
     'When the relying party (any store or none, any identifier with HTML, XRDS, delegated or provider-driven discovery, OpenID 1 or 2) starts a login, its request is sent to the library\'s own provider, the provider answers, and the answer is brought to the relying party, then a positive answer ends in success with the identity that was asked for or chosen, a negative answer in cancel or setup-needed, and never in anything else. '
     'Extension arguments put in the request reach the provider and those put in the answer come out signed at the relying party, unchanged, whether messages travel as redirects or as forms.',
     ['configurations', 'inputs', 'histories'], 'All combinations of protocol version, stores, association types, session state, transport of the messages, delegation, return_to and realm, answers and extension data.',
     'The integration tests run one happy path with one store and one kind of session; combinations are not sampled.',
     ['openid/consumer/consumer.py', 'openid/server/server.py', 'openid/message.py'],
     [('Consumer.begin / complete', 'openid/consumer/consumer.py'), ('CheckIDRequest.answer, Server.encodeResponse, Signatory.sign', 'openid/server/server.py')],
     'end-to-end differential run of both halves over generated configurations', 'Exploration of the configuration space; network faults other than failed association are outside.')

prop('C03', 'Only the provider that an identifier names can assert it',
     'A positive assertion succeeds only if the asserted claimed identifier (without its fragment) either equals the one the login was started for, or is confirmed by a new discovery on it, and the service found there names the same provider endpoint, the same provider-local identifier (identity) and the same protocol version as the assertion. '
     'The identity reported to the application is then exactly the asserted claimed identifier, and discovery failures or mismatches end in a failure.',
     ['inputs', 'configurations', 'histories'], 'All combinations of what was discovered at the beginning, what the assertion says and what discovery on the asserted identifier says, with and without session state, OpenID 1 and 2, provider-driven identifiers, delegation and fragments.',
     'Tests exercise selected mismatches with a stubbed discovery; the guarantee is over every combination.',
     ['openid/consumer/consumer.py', 'openid/consumer/discover.py'],
     [('_verifyDiscoveryResults, _verifyDiscoverySingle, _discoverAndVerify, _verifyDiscoveryServices', 'openid/consumer/consumer.py')],
     'generated triples of session, assertion and web contents against a reference decision', 'Exploration; signatures are genuine in this check.')

prop('C04', 'An assertion is accepted at most once',
     'However a genuine response (or messages made of parts of it) is delivered repeatedly to relying parties that share a store, over any time and with store clean-ups in between, at most one delivery succeeds, and none succeeds whose nonce is further than the permitted skew (five hours) from the clock, is malformed or is missing. '
     'Distinct fresh responses do not block one another, and a refused forgery does not use up the nonce of a genuine response.',
     ['histories', 'inputs'], 'All delivery histories of several responses of several providers, with clock advances, clean-ups and store restarts, for every store.',
     'Tests present one nonce twice to a stub store; interleavings of deliveries, clean-up and time are not reachable.',
     ['openid/consumer/consumer.py', 'openid/store/nonce.py', 'openid/store/memstore.py', 'openid/store/filestore.py', 'openid/store/sqlstore.py'],
     [('_idResCheckNonce', 'openid/consumer/consumer.py'), ('useNonce', 'openid/store/*.py')],
     'stateful delivery histories against a model of seen nonces', 'Exploration of generated histories.')

prop('C05', 'Stores accept each nonce once, only within the time window',
     'For every store, using a nonce (server URL, timestamp, salt) succeeds if and only if the timestamp is within the skew of the clock and the very same triple was not used before; nonces that differ in any component never interfere, whatever characters they contain, and cleaning up never makes a used nonce that is still in the window usable again and removes only expired ones. This also holds among threads that share a memory or file store. '
     'Nonces made by the library carry the current time and split back into the same time and salt; anything that is not a UTC time stamp followed by a salt is refused with ValueError, and the time window check agrees with the clock.',
     ['histories', 'inputs'], 'All sequences of use, clean-up, restart and clock advance over adversarial URLs, salts and boundary timestamps, for the memory, file and SQLite stores; all nonce texts.',
     'The store test uses a dozen fixed nonces and no clock; collisions, boundaries and histories are open.',
     ['openid/store/memstore.py', 'openid/store/filestore.py', 'openid/store/sqlstore.py', 'openid/store/nonce.py'],
     [('useNonce, cleanupNonces', 'openid/store/*.py'), ('split, checkTimestamp, mkNonce', 'openid/store/nonce.py')],
     'model-based stateful testing with a controlled clock', 'Exploration; the clock is assumed not to go backwards.')

prop('C06', 'Stores return the association that was stored, and never an expired one',
     'For every store, after any history of storing, removing, cleaning up and reopening, looking up a server URL and handle gives exactly the association last stored under that very pair (same handle, secret, issue time, lifetime and type), and looking up a server URL alone gives the most recently issued one of that URL, if it has not been removed or expired, and nothing otherwise. '
     'Removal reports whether the association was there, expired associations are not returned, and clean-up removes expired ones only and reports how many. Threads that share a memory or file store do not make each other lose or see wrong associations.',
     ['histories', 'inputs'], 'All histories over adversarial server URLs, handles and secrets and clock advances to the edges of lifetimes, for the memory, file and SQLite stores.',
     'The store test follows one scripted history; key collisions and expiry edges over histories are open.',
     ['openid/store/memstore.py', 'openid/store/filestore.py', 'openid/store/sqlstore.py', 'openid/association.py'],
     [('storeAssociation, getAssociation, removeAssociation, cleanupAssociations', 'openid/store/*.py'), ('Association.serialize/deserialize', 'openid/association.py')],
     'model-based stateful testing against a dictionary model', 'Exploration; one known finding (memory store, expired association by handle) is reported as such.')

prop('C07', 'The file store survives crashes, failing calls and concurrent use',
     'If the process dies, or a file system call fails, at any point of a file store operation, a store opened afterwards on the directory works, still has every association that the operation did not concern, and has the one it concerned either as before or as after, complete and never damaged; a nonce reported as accepted stays used, and the contents of an association are forced to disk before it is put in place; an operation that reports no error has been done. An association file that was damaged from outside counts as absent and disturbs nothing else. Opening a store makes what is missing of its directory, also when several do so at once, or raises OSError. '
     'Of concurrent uses of the same nonce, whatever the interleaving, exactly one is accepted, and concurrent operations on associations neither raise errors nor produce damaged ones.',
     ['crash_points', 'fault_sequences', 'schedules'], 'Every file system call of generated operation sequences as a crash point or as a failing call, truncated and overwritten files, and generated interleavings of two or three operations at file system calls.',
     'Tests run no crash, fault or concurrent schedule at all.',
     ['openid/store/filestore.py'], [('_mktemp + fsync + rename', 'openid/store/filestore.py: storeAssociation'), ('O_EXCL creation', 'openid/store/filestore.py: useNonce'), ('unreadable files are dropped', 'openid/store/filestore.py: _getAssociation')],
     'crash-point and fault enumeration over generated histories, generated schedules', 'Every crash point and single fault of each generated history is enumerated; histories and schedules are sampled. File system calls are assumed atomic.')

prop('C08', 'Signatures verify exactly on what was signed',
     'For every association and message, the signature made equals the HMAC of the key-value form of the listed fields as the OpenID specification defines it (SHA-1 or SHA-256 by type), the signed list names the signed fields, and checking succeeds for the message as signed and fails after any change of a signed value, of the list, of the signature or of the key; missing signatures or lists count as invalid, and messages are not modified by signing or checking. '
     'Serialising an association and reading it back gives an equal association, damaged texts are refused, and the remaining lifetime is the issue time plus lifetime minus the clock, never negative.',
     ['inputs'], 'All messages of every protocol version with extensions and non-ASCII values, all keys, all single alterations, all damaged serialisations.',
     'Tests sign a handful of fixed ASCII messages.',
     ['openid/association.py', 'openid/cryptutil.py', 'openid/kvform.py'], [('Association.sign, getMessageSignature, checkMessageSignature, signMessage', 'openid/association.py'), ('serialize, deserialize', 'openid/association.py')],
     'differential testing against an independent HMAC reference, metamorphic tampering', 'Exploration; HMAC itself is trusted.')

prop('C09', 'Both ends of an association derive the same key, as the specification says',
     'For every allowed association and session type, the secret the relying party stores equals the one the provider stores under the same handle, type and lifetime, also when either side is an independent implementation of the specification, for any modulus, generator and keys; key values that are out of range, wrongly sized or undecodable are refused without storing anything. '
     'The number encodings are the specified big-endian two\'s complement ones and their text forms, and encode and decode are inverse.',
     ['inputs', 'configurations'], 'All pairs of types, moduli, generators, private keys and secrets, malformed requests and responses.',
     'Tests use fixed keys and both ends from the same code, which hides encoding errors they share.',
     ['openid/dh.py', 'openid/cryptutil.py', 'openid/oidutil.py', 'openid/consumer/consumer.py', 'openid/server/server.py'],
     [('DiffieHellman.xorSecret', 'openid/dh.py'), ('longToBinary, binaryToLong, longToBase64', 'openid/cryptutil.py'), ('extractSecret', 'openid/consumer/consumer.py'), ('DiffieHellmanSHA1ServerSession.answer', 'openid/server/server.py')],
     'differential testing against an independent implementation of both ends', 'Exploration; moduli of at most 1024 bits.')

prop('C10', 'Association types are negotiated within both sides\' policies',
     'A relying party only ever asks for and stores association and session types that its policy allows (an OpenID 1 provider may always answer without encryption), with the association type asked for, and a provider only grants types its policy allows; when the first choice is refused with a counter-proposal, the relying party asks once more if and only if the proposal is allowed by its policy, and otherwise goes on without association. '
     'Refusals carry the provider\'s preferred types, and session types that do not fit the association type are never accepted by either side.',
     ['configurations', 'inputs'], 'All policies of both sides, all responses of a provider to the first and second request, OpenID 1 and 2.',
     'Tests script individual server responses under the default policy.',
     ['openid/association.py', 'openid/consumer/consumer.py', 'openid/server/server.py'],
     [('SessionNegotiator', 'openid/association.py'), ('_negotiateAssociation, _extractAssociation', 'openid/consumer/consumer.py'), ('openid_associate', 'openid/server/server.py')],
     'generated policies and provider scripts against a decision model', 'Exploration of the policy space.')

prop('C11', 'A provider answers any request with a request object or a protocol error',
     'Decoding any query gives nothing for an empty one, a request object that says exactly what the query says, or a ProtocolError, and never another error; malformed, incomplete or untrusted authentication requests are always refused. '
     'Every such error can be encoded: as a redirect to the return_to that carries mode error and the error text, or as a key-value document with HTTP status 400 (the return_to being absent or not an http or https URL), and it is never encoded as a success; only an error of a browser request that gives no such return_to has no encoding, since it is for the user. It tells the error text and the contact and reference given, and is sent as a form that posts to the return_to when (OpenID 2) the URL would be longer than 2047 characters.',
     ['inputs'], 'All queries of text keys and values, biased to OpenID fields, plus authentication requests with a single fault.',
     'Tests list a few dozen malformed queries.',
     ['openid/server/server.py', 'openid/message.py'], [('Decoder.decode, CheckIDRequest.fromMessage, AssociateRequest.fromMessage', 'openid/server/server.py'), ('ProtocolError.whichEncoding, encodeToURL, encodeToKVForm', 'openid/server/server.py')],
     'grammar-based fuzzing with structural oracles', 'Exploration; errors of browser requests without return_to can not be encoded, by design.')

prop('C12', 'Provider answers say what was decided, and are signed',
     'A positive answer carries the identity that was asked for (or, for identifier selection, the one the application gave), the claimed identifier, the endpoint, the return_to and a fresh nonce as the protocol version requires, keeps the arguments already in return_to, and is signed over all of them and over every extension field by the requested association while that is live, and otherwise by a private one with the dead handle reported as invalidated. '
     'A negative answer never contains an identity assertion that would be accepted: it is cancel for setup mode, and setup-needed (OpenID 2) or a user_setup_url (OpenID 1) for immediate mode, and answering for another identity than the requested one is refused. Answers are redirects to the return_to, or forms that post to it if (OpenID 2) the URL would be longer than 2047 characters.',
     ['inputs', 'configurations', 'histories'], 'All authentication requests, decisions, identities, association states, extension data and endpoint configurations.',
     'Tests check selected answers field by field with fixed requests.',
     ['openid/server/server.py'], [('CheckIDRequest.answer', 'openid/server/server.py'), ('Signatory.sign', 'openid/server/server.py'), ('SigningEncoder.encode', 'openid/server/server.py')],
     'generated requests and decisions against the specification of the answer, with independent signature verification', 'Exploration.')

prop('C13', 'Direct verification confirms only the provider\'s own fresh assertions, once',
     'Over any history, the provider calls an assertion valid if it is unchanged in its signed fields, was signed with a private association that has not expired and has not been confirmed before; it never calls valid an assertion that was tampered with, that was confirmed before, that has expired, or that is signed with an association shared with a relying party (so nobody who associated can forge one). '
     'A verdict names a handle as invalid exactly if the relying party asked about it and no live shared association has that handle, and verification never disturbs shared associations.',
     ['histories', 'inputs'], 'All histories of associating, asserting, verifying (genuine, repeated, tampered), forging, clean-up, restart and time.',
     'Tests verify one assertion with stubs; reuse, mixing of handles and expiry over histories are open.',
     ['openid/server/server.py'], [('Signatory.verify, getAssociation, invalidate', 'openid/server/server.py'), ('CheckAuthRequest.answer', 'openid/server/server.py')],
     'stateful histories against a model of assertions and handles', 'Exploration.')

prop('C14', 'A realm covers exactly the URLs below it',
     'A URL is accepted for a realm if and only if, after normalisation, scheme and port are equal, the host is equal (or, for a wildcard realm, equal to or a subdomain of its domain), and the path is equal to or below the path of the realm (where the realm has a query, the URL has the same path and its query continues that query at an argument boundary); however either is spelled (case, default port, percent-encoding, dot segments, user information). '
     'Realms with a fragment, a misplaced wildcard or that are no URL are refused and match nothing, a provider refuses authentication requests whose return_to is not covered by the realm, and realms that are too broad (a bare top-level domain, an unknown one, a wildcard over a short country-code second level) are reported as not sane.',
     ['inputs'], 'All realms and URLs made of parts, and all spellings of them; arbitrary text.',
     'Tests use a table of about a hundred pairs.',
     ['openid/server/trustroot.py', 'openid/urinorm.py', 'openid/server/server.py'], [('TrustRoot.parse, validateURL, isSane', 'openid/server/trustroot.py'), ('CheckIDRequest.trustRootValid', 'openid/server/server.py')],
     'structured generation of URL parts and spellings against a decision on the parts', 'Exploration.')

prop('C15', 'A return_to is verified only if the realm\'s own document lists it',
     'Verifying a return_to for a realm succeeds if and only if discovery on the realm (with www. in place of the wildcard), without having been redirected to another URL, yields an XRDS document that lists as return_to service a URL without wildcard that covers the return_to. '
     'A realm that does not parse or has no domain is never verified, and failing discovery never counts as verified.',
     ['inputs', 'configurations'], 'All realms, published documents, ways of publishing, redirects and return_to URLs.',
     'Tests replace the discovery by a stub.',
     ['openid/server/trustroot.py', 'openid/yadis/services.py'], [('verifyReturnTo, getAllowedReturnURLs, returnToMatches, buildDiscoveryURL', 'openid/server/trustroot.py')],
     'generated webs against a decision on URL parts', 'Exploration.')

prop('C16', 'Discovery finds exactly the services a URL publishes, in order',
     'Discovery on a URL finds exactly the OpenID services that its XRDS document (sent directly, or named by the X-XRDS-Location header or meta element) declares in its last XRD, each with its types, endpoint URL, and local identifier, provider identifiers first and otherwise by ascending service priority and then URI priority (missing or invalid priorities last); if there are none, those that the HTML page declares by link elements in its head. '
     'The claimed identifier is the normalised URL after redirects without fragment, contradicting local identifiers or a page that can not be retrieved are a failure. Pages are read in the encoding that their content type names, and Yadis filters given by the application (functions, classes, filter objects and lists of them) give all their results.',
     ['inputs', 'configurations'], 'All documents generated from models of XRDS and HTML, ways of publishing them, content types, statuses and redirects.',
     'Tests use a few dozen fixed documents.',
     ['openid/consumer/discover.py', 'openid/yadis/discover.py', 'openid/yadis/etxrd.py', 'openid/yadis/parsehtml.py', 'openid/yadis/filters.py', 'openid/yadis/services.py'],
     [('discoverURI, discoverYadis, discoverNoYadis, OpenIDServiceEndpoint.fromHTML', 'openid/consumer/discover.py'), ('prioSort, iterServices, expandService', 'openid/yadis/etxrd.py'), ('discover, whereIsYadis', 'openid/yadis/discover.py')],
     'model-to-document generation, comparison of the services found with the model', 'Exploration; ties in priority are unordered by design.')

prop('C17', 'An XRI resolves only to identifiers its authorities may assign',
     'Services for an XRI are found only if in every answer of the proxy resolver the CanonicalID of each XRD is the direct child of that of the XRD before and the first is a direct child of the root authority of the XRI, with one and the same CanonicalID in all answers; otherwise there are no services. '
     'The services found carry the CanonicalID as claimed identifier (and identity, where no local identifier is given) and the XRI as display identifier, and the resolver is asked about exactly the XRI that was entered, written as a URI as the XRI specification says (cross-references escaped), with the service type that is wanted. The root authority of an XRI is its first symbol, cross-reference or IRI authority.',
     ['inputs'], 'All chains of canonical identifiers and single faults in them, all XRIs including cross-references, all mixtures of answers of the resolver.',
     'Tests check four fixed chains.',
     ['openid/yadis/xri.py', 'openid/yadis/xrires.py', 'openid/yadis/etxrd.py', 'openid/consumer/discover.py'], [('getCanonicalID', 'openid/yadis/etxrd.py'), ('rootAuthority, providerIsAuthoritative, toURINormal', 'openid/yadis/xri.py'), ('ProxyResolver.query', 'openid/yadis/xrires.py'), ('discoverXRI', 'openid/consumer/discover.py')],
     'generated chains of identifiers with faults against a reference decision', 'Exploration; the resolver itself is trusted for the services it lists.')

prop('C18', 'Discovery on hostile input ends in services or a discovery failure',
     'Whatever text is entered as identifier and whatever documents, headers, statuses and failures the web answers with, starting a login gives a request with a usable service (server URL, claimed identifier, OpenID type) or raises DiscoveryFailure; discovery and return_to verification raise only DiscoveryFailure or a fetching error. '
     'It ends after a bounded number of requests, and entities or inclusions in documents never bring contents of local files into services or requests.',
     ['inputs', 'fault_sequences'], 'All identifiers; damaged, nested, entity-laden and random documents; all content types and locations; failures at any request.',
     'Tests feed a few malformed documents.',
     ['openid/consumer/discover.py', 'openid/yadis/discover.py', 'openid/yadis/etxrd.py', 'openid/yadis/parsehtml.py', 'openid/consumer/consumer.py'], [('Consumer.begin', 'openid/consumer/consumer.py'), ('parseXRDS', 'openid/yadis/etxrd.py'), ('findHTMLMeta', 'openid/yadis/parsehtml.py'), ('whereIsYadis', 'openid/yadis/discover.py')],
     'grammar-based and mutation fuzzing of the whole web around a login', 'Exploration.')

prop('C19', 'URL normalisation identifies equivalent URLs and keeps different ones apart',
     'Normalising an HTTP(S) URL gives the same text for all spellings that differ only in the case of scheme and host, the default port, percent-encoding of unreserved characters or its case, dot segments, an empty path or an internationalised host name, and never the same text for URLs that differ in scheme, user information, host, port, decoded path segments, query arguments (name, value or order) or fragment. '
     'The result is stable under normalisation and consists of legal URL characters only; everything that is not an absolute HTTP(S) URL raises ValueError and nothing else.',
     ['inputs'], 'All URLs made of generated parts with arbitrary octets, and spellings of them; arbitrary text.',
     'Tests use a table of about fifty URLs.',
     ['openid/urinorm.py'], [('urinorm, remove_dot_segments', 'openid/urinorm.py')],
     'structured generation with equivalent spellings, independent reader of the result', 'Exploration.')

prop('C20', 'Repeated attempts walk through the discovered services in order',
     'Within a session, each further attempt to log in with the same identifier (as entered before, or as discovery found it) uses the next discovered service in their order, without repeating discovery, until all were tried; then discovery runs anew. Another identifier, a success, or a refusal by the user starts from the beginning, and other failures do not. '
     'Whatever the history, a service used is always one that discovery for that identifier gave, sessions of different users or consumers with different session key prefixes do not influence one another or other values in the session, a login is completed at most once per attempt (what was begun is forgotten then), and after a success nothing of it is left in the session. The service manager can be iterated, and says correctly what is current and what remains.',
     ['histories'], 'All histories of beginning, completing (success, failure, cancel) and changing identifiers over sets of services, including empty ones, with pickled and restored sessions.',
     'Tests follow one scripted sequence.',
     ['openid/yadis/manager.py', 'openid/consumer/consumer.py'], [('Discovery.getNextService, cleanup', 'openid/yadis/manager.py'), ('Consumer.begin, complete', 'openid/consumer/consumer.py')],
     'stateful testing against a model of the session', 'Exploration.')

prop('C21', 'Messages survive every encoding unchanged',
     'For every message, writing it as URL, as query, as key-value form or as HTML form and reading that back gives the same fields in the same namespaces with the same values, of any characters; adding to a URL keeps what was in it and the fragment. '
     'Namespace aliases are unique, the arguments read for a namespace are exactly those sent under it, and queries with repeated arguments, invalid namespaces or undecodable content are refused with the documented errors only. No extension can take the name of a protocol field as its alias, and messages are equal exactly if their arguments are.',
     ['inputs', 'histories'], 'All messages built by any sequence of setting, deleting and aliasing, with adversarial keys, values and namespaces; all queries.',
     'Tests check fixed messages with ASCII values.',
     ['openid/message.py', 'openid/oidutil.py'], [('Message.fromPostArgs, fromKVForm, toPostArgs, toURL, toKVForm, toFormMarkup', 'openid/message.py'), ('NamespaceMap', 'openid/message.py'), ('appendArgs, toUnicode', 'openid/oidutil.py')],
     'round trips through independent parsers over generated messages', 'Exploration; text that XML can not represent is outside for HTML forms.')

prop('C22', 'Key-value form is unambiguous',
     'For every list of pairs that the format can represent, writing and reading give the same list, byte for byte as the specification says; strict writing refuses keys or values with a newline, and keys with a colon, and never writes something that reads back as different pairs. '
     'Reading any bytes ends in pairs or in the documented errors.',
     ['inputs'], 'All lists of pairs and all byte sequences.', 'Tests check a table of about twenty forms.',
     ['openid/kvform.py'], [('seqToKV, kvToSeq, dictToKV, kvToDict', 'openid/kvform.py')],
     'round trip and differential testing with an independent reader', 'Exploration.')

prop('C23', 'Applications are only given data that the provider signed',
     'After a success, the accessors for signed data and the extension readers in their signed-only mode (simple registration, attribute exchange, PAPE) return exactly the values of fields that the provider\'s signature covers: unsigned fields added or altered on the way never appear, and a namespace whose fields are not all signed yields nothing. '
     'The reported identity, return_to and display identifier come from the verified assertion and discovery only.',
     ['inputs'], 'All genuine assertions with signed extension data to which unsigned fields, aliases and namespaces are added.',
     'Tests check fixed messages with a hand-written signed list.',
     ['openid/consumer/consumer.py', 'openid/extensions/sreg.py', 'openid/extensions/ax.py', 'openid/extensions/pape.py'], [('SuccessResponse.extensionResponse, getSigned, getSignedNS', 'openid/consumer/consumer.py'), ('fromSuccessResponse', 'openid/extensions/*.py')],
     'generated assertions with injected unsigned data', 'Exploration.')

prop('C24', 'Simple registration requests and answers survive the trip',
     'For every request of required and optional fields and policy URL, what the provider parses is what the relying party asked for (each field once, required taking precedence as requested, unknown fields refused in strict mode and ignored otherwise), in every protocol version and namespace; an answer made for a request contains exactly the requested fields that the data has, and the relying party reads back exactly those values. '
     'Arguments that are not simple registration fields never become fields.',
     ['inputs', 'histories'], 'All requests built by any sequence of field requests, all data, all protocol versions and namespaces, arbitrary arguments.',
     'Tests check fixed requests.',
     ['openid/extensions/sreg.py'], [('SRegRequest.parseExtensionArgs, requestField, getExtensionArgs', 'openid/extensions/sreg.py'), ('SRegResponse.extractResponse, fromSuccessResponse', 'openid/extensions/sreg.py')],
     'round trips over generated histories of building a request', 'Exploration.')

prop('C25', 'Attribute exchange messages survive the trip',
     'For every fetch request (attributes, required flags, counts, aliases, update URL), fetch answer and store request sent with OpenID 2, what the other side reads equals what was put in: the same attribute types with the same flags and counts and the same values in the same order, under unique aliases (the chosen ones where chosen); an answer made for a request uses its aliases and its update URL, tells the unanswered types with no values, and one with types that were not requested or more values than asked for is refused. '
     'Wrong modes, bad counts, repeated types, unknown aliases, aliases with commas or dots, types that are neither required nor optional and missing values are refused with AXError (ValueError) or KeyError as documented, messages without attribute exchange or with unsigned parts give None, and an update URL outside the realm (or the return_to) of the request is refused.',
     ['inputs'], 'Attribute sets with generated aliases, counts and values, and damaged arguments in messages of all versions.',
     'Tests check fixed argument sets.',
     ['openid/extensions/ax.py'], [('FetchRequest, FetchResponse, StoreRequest, StoreResponse, AXKeyValueMessage', 'openid/extensions/ax.py')],
     'round trips and differential parsing over generated messages', 'Exploration.')

prop('C26', 'Authentication policies (PAPE) survive the trip',
     'For every request (preferred policies, level types, maximum age) and answer (policies, levels, time) sent with OpenID 2, what the other side reads equals what was put in, in the same order for policies and level types, whatever aliases the levels were given (an alias already used for another level type is refused with KeyError); the preferred types are the supported ones that the request prefers, in the order supported. '
     'Malformed times, ages, "none" among other policies, and undeclared level aliases are refused with ValueError in strict mode and left out otherwise; no policies and the policy "none" are told as the empty list; messages without (signed) policy arguments give None. In OpenID 1 messages the nist and jisa level aliases are known without a declaration.',
     ['inputs'], 'All policies, levels, aliases, ages and times, arbitrary arguments.', 'Tests check fixed argument sets.',
     ['openid/extensions/pape.py'], [('Request, Response, _addAuthLevelAlias', 'openid/extensions/pape.py')],
     'round trips over generated requests and answers', 'Exploration.')

prop('C27', 'Authentication requests say what the relying party meant',
     'For every service, the request carries the mode, realm (trust_root in OpenID 1), return_to, the handle of the association with the service (none without one) and the identity and, in OpenID 2, claimed identifier of the service (identifier selection for provider identifiers, none for anonymous requests), plus exactly the extension arguments added and nothing else; the redirect URL is the server URL of the service with its own query kept, and URL, message and form (POSTed to the server URL) carry the same arguments, however often they are made. '
     'The return_to keeps its own query and gains the extra arguments asked for, for OpenID 1 always a fresh nonce and the claimed identifier that the later verification needs; requests without return_to are refused with ValueError when immediate, in OpenID 1, or when arguments would have to be added to it; anonymous requests are refused in OpenID 1, and only OpenID 1 requests ask to be sent as a redirect.',
     ['inputs', 'configurations'], 'All services, realms, return_to URLs, associations, extension arguments and modes.', 'Tests check fixed services.',
     ['openid/consumer/consumer.py', 'openid/message.py'], [('AuthRequest.getMessage, redirectURL, formMarkup, htmlMarkup, shouldSendRedirect', 'openid/consumer/consumer.py')],
     'generated services and parameters against the specified arguments', 'Exploration.')

prop('C28', 'Completing a login always gives one of the four documented outcomes',
     'Whatever query of texts arrives, in whatever session state, and whatever the provider or the web answers to the verification it causes, completing a login returns a success, failure, cancel or setup-needed response and raises nothing (except the RuntimeError that tells a programmer that an OpenID 1 response came with neither session nor claimed identifier); errors, cancellations and requests to set up (setup_needed in OpenID 2, user_setup_url in OpenID 1) are reported as such, with the text, contact, reference or URL the provider sent; every other mode is a failure, and success is only for id_res. '
     'Outcomes other than success tell the endpoint and identifier of the login in the session, and the session holds no unfinished login afterwards.',
     ['inputs', 'fault_sequences'], 'All queries (arbitrary, damaged genuine responses), session states, stores and answers to direct verification and discovery.',
     'Tests list a few dozen messages.',
     ['openid/consumer/consumer.py', 'openid/message.py'], [('Consumer.complete, GenericConsumer.complete, _doIdRes', 'openid/consumer/consumer.py')],
     'fuzzing of responses, sessions and the web behind them', 'Exploration.')

prop('C29', 'Accept headers choose among the types that are acceptable',
     'For every Accept header and list of types on offer, the types returned are exactly those whose best-matching entry (exact type over type/* over */*) has a quality above zero, in descending quality and, for equal quality, in the order offered; a quality that is not a number counts as 1, entries that are not of the form type/subtype are ignored, and a header without any valid entry accepts everything. '
     'A header generated from types and qualities (in tenths) reads back as the same types and qualities; a quality out of range is refused.',
     ['inputs'], 'All Accept headers and lists of types.', 'Tests check a table of headers.',
     ['openid/yadis/accept.py'], [('parseAcceptHeader, matchTypes, getAcceptable, generateAcceptHeader', 'openid/yadis/accept.py')],
     'generated headers against an independent matcher', 'Exploration.')

prop('C30', 'All HTTP fetchers behave alike',
     'Whichever fetcher is used, a request reaches the server with the method, body and headers asked for (POST if and only if there is a body, with the form content type unless another is given); redirects (301, 302, 303, and 307 for GET; absolute or relative) are followed, with GET; and the response has the status, the body as sent (up to one megabyte), the headers by their lower-case names, and the final URL, which is the URL the response was fetched from whatever the headers of the response say. Error statuses are responses and not errors. '
     'URLs that are not HTTP(S), redirects to such URLs, refused connections and responses that are not HTTP are reported as fetching errors. A login over the network (discovery, association, check_authentication) has the outcome it should have with each fetcher. Unless the application sets one, the first of requests, pycurl and httplib2 that is installed is used, or else urllib, and all its errors come as fetching errors with their cause; https URLs are fetched over TLS only.',
     ['inputs', 'fault_sequences', 'configurations'], 'All scripts of responses of a local server: statuses, headers, bodies, redirect chains, and failing connections, for every fetcher that is installed.',
     'Tests check each fetcher with a stubbed transport.',
     ['openid/fetchers.py'], [('Urllib2Fetcher, CurlHTTPFetcher, HTTPLib2Fetcher, RequestsFetcher, ExceptionWrappingFetcher', 'openid/fetchers.py')],
     'generated server scripts on the loopback interface, every fetcher against the script', 'Exploration; only the loopback network is used.')

prop('C31', 'SQL stores do each operation entirely or not at all',
     'When a statement or the commit of an operation on an SQL store fails, the operation raises and has no effect, then or later: the database is as before, no lock or half-done work is left behind, and the store goes on working. When it returns, its whole effect is in the database and everybody who uses the same database sees it. '
     'Operations of several processes that overlap have results and effects as if one had come before the other (or one of them fails and has no effect); in particular only one of several concurrent uses of a nonce succeeds, and no error of the database makes a nonce count as used or fresh.',
     ['fault_sequences', 'schedules', 'histories'], 'All histories of operations of two processes on one database, with a failure of any database call, or with the operation of the other process between any two calls.',
     'The store test uses one connection that never fails.',
     ['openid/store/sqlstore.py'], [('SQLStore._callInTransaction, txn_*, _execSQL', 'openid/store/sqlstore.py'), ('PostgreSQLStore.db_set_assoc, MySQLStore, SQLiteStore', 'openid/store/sqlstore.py')],
     'generated histories with injected database errors and nested operations of a second process against a model of the database', 'Exploration; the MySQL and PostgreSQL stores run on SQLite behind a stand-in driver.')

prop('C32', 'Byte strings mean the same as UTF-8 text',
     'Wherever the library still accepts a byte string in place of text (it warns that this is deprecated), giving the UTF-8 encoding of a text has the same result, the same effect on stores and sessions, and the same errors as giving the text itself, also when only some of the arguments are bytes.',
     ['inputs'], 'All functions that document deprecated byte strings, with generated arguments, every subset of them as bytes.',
     'Tests call each function with one ASCII byte string at most and look at the warning.',
     ['openid/oidutil.py', 'openid/association.py', 'openid/message.py', 'openid/kvform.py', 'openid/server/server.py', 'openid/server/trustroot.py', 'openid/store/filestore.py', 'openid/store/sqlstore.py', 'openid/yadis/accept.py', 'openid/consumer/consumer.py', 'openid/extensions/sreg.py', 'openid/extensions/ax.py'],
     [('string_to_text', 'openid/oidutil.py'), ('Association, SessionNegotiator', 'openid/association.py'), ('Message.getArg, fromOpenIDArgs, toURL', 'openid/message.py'), ('Server, Signatory, CheckIDRequest.answer', 'openid/server/server.py')],
     'metamorphic: each generated call is made twice, with text and with some of its text as UTF-8 bytes, and the outcomes compared', 'Exploration.')

prop('C33', 'Users, objects and requests do not influence one another',
     'What one visitor, application object or request does changes nothing for another: every operation on consumers with sessions of their own, on a provider, on messages, extension objects, negotiators, discovery managers, stores and endpoints has the result that it has when no one else is there, however operations are interleaved, on shared providers and stores as on separate ones, and when each runs in a thread of its own; and no call changes the dictionaries and lists that are given to it, then or later.',
     ['inputs', 'schedules'], 'Operation sequences of two to five actors, interleaved in one thread or run in threads at the same time; one process.',
     'Tests use one fresh object at a time and never look at its arguments again, so state that is shared by accident (a default that is modified, a global policy, a list that is kept) is not seen.',
     ['openid/consumer/consumer.py', 'openid/server/server.py', 'openid/message.py', 'openid/association.py', 'openid/extensions/ax.py', 'openid/extensions/sreg.py', 'openid/extensions/pape.py', 'openid/yadis/manager.py', 'openid/store/memstore.py'],
     [('Consumer, GenericConsumer, AuthRequest', 'openid/consumer/consumer.py'), ('Server', 'openid/server/server.py'), ('Message, NamespaceMap', 'openid/message.py'), ('default_negotiator, SessionNegotiator', 'openid/association.py'), ('Request, Response', 'openid/extensions/pape.py'), ('Discovery', 'openid/yadis/manager.py')],
     'metamorphic: the transcript of each actor among others, interleaved or in threads, against its transcript alone, with arguments compared to copies', 'Exploration.')

prop('C34', 'No input can stall the library',
     'Whatever a remote party or a user may send - identifiers and addresses, realms, headers, documents, responses of providers, requests, responses and extension data, of up to a hundred thousand characters or several thousand fields, and documents and the addresses in them of up to a million characters - the library deals with it in a few seconds of processor time, a bounded number of HTTP requests and bounded memory, by a result or by an error.',
     ['inputs'], 'Texts that repeat short units of special characters between other pieces, large and deep documents, messages with thousands of fields or long values; limits of 10 s of processor time and 4 GB of memory, where the library needs at most about two seconds.',
     'Tests use short inputs, for which quadratic and exponential time make no difference.',
     ['openid/urinorm.py', 'openid/kvform.py', 'openid/yadis/xri.py', 'openid/yadis/xrires.py', 'openid/yadis/accept.py', 'openid/yadis/etxrd.py', 'openid/server/trustroot.py', 'openid/consumer/discover.py', 'openid/consumer/consumer.py', 'openid/server/server.py', 'openid/message.py', 'openid/extensions/ax.py', 'openid/extensions/sreg.py', 'openid/extensions/pape.py', 'openid/store/nonce.py'],
     [('remove_dot_segments, urinorm', 'openid/urinorm.py'), ('escapeForIRI', 'openid/yadis/xri.py'), ('kvToSeq', 'openid/kvform.py'), ('TrustRoot.parse, isSane, validateURL', 'openid/server/trustroot.py'), ('iterServices, expandServices', 'openid/yadis/etxrd.py'), ('Message', 'openid/message.py')],
     'fuzzing with repetitive and large structured inputs under limits of processor time and memory', 'Exploration.')


prop('C35', 'What must not be guessed is made anew from the system\'s randomness',
     'Association secrets, association handles, the salts of nonces, and Diffie-Hellman keys are made anew each time from the system\'s source of randomness: whatever the state of Python\'s random generator, the clock and earlier operations are, and in processes that were forked from one another, different calls give different values (but for coincidences as rare as their size allows), secrets have the length of their type, and no part of a secret or salt follows from other parts or from the values before.',
     ['inputs', 'histories'], 'Sequences of operations that make such values, performed twice in the same state of everything but the system\'s randomness (seeded generator, frozen clock, fork), and thousands of values of a kind.',
     'Tests make one value at a time, in one process, and look at its form.',
     ['openid/store/nonce.py', 'openid/server/server.py', 'openid/dh.py', 'openid/consumer/consumer.py'],
     [('make_nonce_salt, mkNonce', 'openid/store/nonce.py'), ('Signatory.createAssociation', 'openid/server/server.py'), ('DiffieHellman.fromDefaults', 'openid/dh.py'), ('DiffieHellmanSHA1ConsumerSession', 'openid/consumer/consumer.py')],
     'metamorphic: the same operations in the same state must give different values; statistics of thousands of values (coincidences, values at each place, dependence of places, balance of bits)', 'Exploration.')

prop('C36', 'What remote parties send cannot break out of redirects and pages',
     'The redirects and the pages that provider and relying party make from what others sent - requests with any return_to, mode, realm, identity and other fields at the provider, answers, refusals, cancellations and protocol errors, and at the relying party discovered addresses of providers and identifiers, arguments and extension fields - only go to http and https URLs and to the place asked for: no header value has control characters, so that none can add headers; no redirect or form goes to a javascript:, data: or other URL; and the pages have exactly the elements, scripts and event handlers of the page for harmless values. A return_to that is not such a URL is not answered with a redirect or form, and discovery gives no service whose address is not such a URL.',
     ['inputs'], 'Addresses of many schemes with control characters, quotes, markup and lengths up to thousands of characters, in every version and mode and in HTML and XRDS documents.',
     'Tests use well-formed http URLs and compare pages for a few values.',
     ['openid/oidutil.py', 'openid/message.py', 'openid/server/server.py', 'openid/consumer/consumer.py', 'openid/consumer/discover.py'],
     [('appendArgs, autoSubmitHTML', 'openid/oidutil.py'), ('Message.toURL, toFormMarkup', 'openid/message.py'), ('ProtocolError.whichEncoding', 'openid/server/server.py'), ('AuthRequest.redirectURL, htmlMarkup', 'openid/consumer/consumer.py'), ('fromBasicServiceEndpoint, fromHTML', 'openid/consumer/discover.py')],
     'invariants over headers, redirects and parsed pages, and a metamorphic relation: the active parts of the page for hostile values are those of the page for harmless ones', 'Exploration.')


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in have:
            assert len(p['title']) <= 80, p['id']
            anchors = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'hook_needed': None}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': anchors}) + '\n')
    manifest = {
        'version': 1,
        'setup_cmd': 'bash setup.sh',
        'checks': [{
            'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'property-based testing: ' + p['technique'], 'level': 'fault_enumeration' if p['id'] == 'C07' else 'exploration', 'level_note': p['note']} for p in have],
        'not_applicable': [],
        'notes': 'Hypothesis-driven generation over plain JSON cases; see DESIGN.md. No hooks in /repo are needed: the clock, the HTTP fetcher and file system calls are controlled from outside.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
