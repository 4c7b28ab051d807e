"""Writes /verif/properties.jsonl."""
import json, os
PY="src/urlstd/parse.py"
def p(id,title,statement,over,text,why,mech,state=(),observe=""):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":sorted({PY}|({"src/urlstd/error.py"} if id in("C14","C18","C22") else set())),"mechanism":[{"name":n,"where":PY+": "+w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":PY+": "+w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=[observe]
    return d
WPT="The suite samples a few hundred fixed strings (web-platform-tests data); the property ranges over every string"
L=[
p("C01","Absolute URL parsing follows the URL Standard",
 "For every string, parsing it without a base either fails or yields exactly the URL record the WHATWG URL Standard prescribes: scheme, username, password, host, port, path, query and fragment, with tabs and newlines removed, leading and trailing C0 control or space trimmed, default ports dropped, dot segments and Windows drive letters resolved. The serialization (with and without fragment) and every component attribute of the URL object show that record.",
 ["inputs"],"every string (any code points, lone surrogates included), no base",
 WPT+", and the interplay of scheme class, slashes, credentials, drive letters and dot segments is combinatorial.",
 [("URL parser state machine","BasicURLParser"),("serializer","URLRecord.serialize_url"),("entry points","parse_url, URL")],
 observe="parse_url(), URL(), URL.href/origin/protocol/.../hash"),
p("C02","Relative reference resolution follows the URL Standard",
 "For every reference string and every base (a URL string, a URL object or a URL record, whatever operations produced it), resolving the reference against the base either fails or yields exactly the record the URL Standard prescribes, including fragment-only, query-only, scheme-relative and path-relative references, file-URL drive-letter and host inheritance, and bases with an opaque path. The base is not modified.",
 ["inputs","histories"],"every (reference, base) pair; bases parsed from any string or reached by any setter history",
 WPT+" squared, and tests only use freshly parsed bases.",
 [("relative, relative-slash, file and no-scheme states","BasicURLParser"),("path shortening","URLRecord")]),
p("C03","Serializing and reparsing gives the same URL back",
 "For every URL a program can obtain, by parsing a string (with or without base) or by any sequence of attribute and search-parameter changes, its href parses, without a base, to a URL with the same href and identical components. The only exception is the one the standard has: a URL whose scheme was changed to file by a setter and whose host is localhost or whose path starts with a drive letter.",
 ["inputs","histories"],"every parsed string and every setter/search-parameter history",
 "Tests compare href to literals for fixed inputs; none reparses, and none does so after histories.",
 [("serializer","URLRecord.serialize_url, serialize_path"),("opaque-path space stripping","URL.search, URL.hash, URLSearchParams update"),("/. prefix for null hosts","URLRecord.serialize_url")]),
p("C04","Attribute setters follow the URL Standard in every state",
 "For every URL object state and every assignment to href, protocol, username, password, host, hostname, port, pathname, search or hash, the object afterwards is exactly what the URL Standard's API prescribes: the right component changes, all others stay, forbidden changes are ignored or rejected, and an href assignment that fails to parse raises and changes nothing. All component attributes and the search parameters reflect the new state, for any sequence of assignments.",
 ["histories","inputs"],"every sequence of attribute assignments with every value, from every URL",
 "Tests apply one setter to one fresh URL; results depend on the state earlier assignments left and on the value.",
 [("setters","URL"),("state-override parsing","BasicURLParser.parse with state_override")],
 [("URL._url","the URL record of the object","URL"),("URL._query","its URLSearchParams","URL")]),
p("C05","A URL and its search_params never disagree",
 "At every moment of every program, a URL object's search_params shows exactly the name/value list that form-urlencoded decoding of the URL's query gives, whether the last change came from the URL (href, search) or from the URLSearchParams object (append, delete, set, sort), including references to search_params obtained earlier. After a change through search_params the URL's query is the serialization of the list, or is removed when the list is empty, and trailing spaces of an opaque path are stripped as the standard says; other components do not change.",
 ["histories"],"every interleaving of URL attribute assignments and search-parameter operations, through old and new references; also URLSearchParams attached to a URL record",
 "Tests check a handful of two-step sequences.",
 [("update steps","URLSearchParams._update"),("URL side","URL.search, URL.href setters")],
 [("URLSearchParams._list","the pairs","URLSearchParams"),("URLSearchParams._url","the URL record to update","URLSearchParams")]),
p("C06","URLSearchParams is the ordered list the standard defines",
 "For every way of constructing a URLSearchParams (nothing, string with optional leading '?', sequence of pairs, mapping, another URLSearchParams; a sequence whose items are not all pairs is refused with ValueError) and every sequence of append, delete, set, sort, get, get_all, has, in, len, iteration, keys, values, entries, indexing, str and +, contents and results equal those of the standard's ordered list of name-value pairs: delete and has match the value when one is given, set replaces the first and removes the rest, sort is stable by UTF-16 code units, non-string numbers are stringified, lone surrogates become U+FFFD. Names and values given as arguments are taken literally (never percent-decoded).",
 ["histories","inputs"],"every construction and operation sequence with every name and value",
 "Tests use short fixed lists; duplicates, empty names, surrogates and stability only show in longer histories.",
 [("list operations","URLSearchParams")],
 [("URLSearchParams._list","the pairs","URLSearchParams")]),
p("C07","The form-urlencoded codec is exact and lossless",
 "For every list of name/value pairs, urlencode() produces the standard's application/x-www-form-urlencoded serialization, in UTF-8 or the requested encoding with unencodable characters as percent-encoded numeric character references. For every byte string, parse_qsl() produces the list the standard's parser gives, and parse_qsl(urlencode(pairs)) equals the pairs with lone surrogates replaced by U+FFFD.",
 ["inputs"],"every list of pairs, every byte string, every encoding of the modelled set",
 "Tests sample a few strings; the property is per byte and per code point and about their combinations.",
 [("encoder","urlencode, string_percent_encode"),("decoder","parse_qsl")]),
p("C08","Host parsing of domains and opaque hosts is exact",
 "For every string, parsing it as a host of a special URL percent-decodes it, applies domain-to-ASCII, rejects forbidden domain code points and hands over to the IPv4 parser exactly when the result ends in a number; parsing it as a host of a non-special URL rejects forbidden host code points and percent-encodes controls and non-ASCII only. Success, failure, error class, result and serialization are those of the URL Standard, and reparsing a serialized host gives the same host.",
 ["inputs"],"every string, special and non-special",
 "Fixed samples; forbidden code points, percent-escapes and numeric endings combine freely.",
 [("host parser","Host.parse"),("opaque-host parser","Host"),("serializer","Host.serialize")]),
p("C09","IPv4 parsing and serialization are exact",
 "For every host ending in a number, parsing gives the 32-bit address the URL Standard prescribes (decimal, octal and hex parts, one to four parts, the last part filling the remaining bytes, an optional trailing dot, any number of digits) or fails exactly when it prescribes failure, with the prescribed validation errors. Every 32-bit address serializes to its dotted-decimal form, which parses back to it.",
 ["inputs"],"every numeric host string; every 32-bit address",
 "Bounds, radix prefixes, empty parts and overflow per part count give many boundaries; tests hold a few.",
 [("IPv4 parser","Host IPv4 parser and number parser"),("ends-in-a-number checker","Host"),("serializer","Host.serialize")]),
p("C10","IPv6 parsing and serialization are exact",
 "For every bracketed host, parsing gives the eight 16-bit pieces the URL Standard prescribes (compression, embedded dotted-decimal IPv4, any hex case) or fails exactly when it prescribes failure. Every address serializes to lower-case hex with the first longest run of at least two zero pieces compressed, and that text parses back to it.",
 ["inputs"],"every bracketed string; every sequence of eight pieces",
 "The space of colon/compression/IPv4 placements is combinatorial; tests hold tens.",
 [("IPv6 parser","Host IPv6 parser"),("serializer and compressor","Host.serialize")]),
p("C11","Internationalized domains map as UTS #46 prescribes",
 "For every domain, conversion to ASCII (non-strict and strict) and to Unicode gives what UTS #46 with the URL Standard's parameters gives: non-transitional, Bidi and ContextJ checked, hyphens not checked, STD3 rules and DNS lengths enforced only when strict, an empty result a failure. Results do not depend on what was converted before.",
 ["inputs","histories"],"every domain string, strict or not, in any order of calls",
 "The suite's IDNA vectors are a fixed list.",
 [("conversion and flag handling","IDNA.domain_to_ascii, IDNA.domain_to_unicode"),("instance cache","IDNA._cache")]),
p("C12","Each component percent-encodes exactly its set",
 "For every code point in every component (userinfo, opaque host, path, opaque path, query, special query, fragment), whether it comes from parsing or from a setter, the output contains it as is or UTF-8 percent-encoded exactly as the component's percent-encode set says; existing percent escapes are left alone; surrogate pairs count as one character and lone surrogates become U+FFFD. The percent-encode, percent-decode and UTF-8 helper functions agree with the standard for every input.",
 ["inputs"],"every code point x component x scheme class x parse/setter, and every byte sequence for the decoders",
 "1.1 million code points times components times entry points; tests touch a few dozen.",
 [("encode sets and encoder","string_percent_encode, utf8_percent_encode"),("decoders","string_percent_decode, utf8_decode"),("parser states","BasicURLParser")]),
p("C13","Origins are computed and compared as the standard says",
 "For every URL the origin is the (scheme, host, port) tuple for http, https, ws, wss and ftp, that of the inner http, https or file URL for blob URLs, and opaque (serialized 'null') otherwise; its serialization is exact. Same-origin is equality of tuples, same-origin-domain follows the domain rule, and both are symmetric.",
 ["inputs"],"every pair of URLs, with and without a domain set",
 "A relation over pairs; tests compare a few.",
 [("origin","URLRecord.origin, Origin, URL.origin"),("comparison","Origin.is_same_origin, is_same_origin_domain")]),
p("C14","Validation verdicts and reported errors are exact",
 "For every string and base, can_parse answers true exactly when parsing succeeds, and the URL validator answers true exactly when parsing reports no validation error and the scheme is registered. A validity state passed in ends up holding exactly the standard's validation errors in the order they were met (a surrogate, paired or not, being a code point that is no URL code point), is reset by validators and can_parse before use, and its counters, list and flag agree with each other; asking for it never changes the verdict.",
 ["inputs","histories"],"every string and base; reused validity-state objects",
 "Every error kind arises at many places in combination; tests check single errors.",
 [("validators","URLValidator, URL.can_parse"),("error collection","ValidityState, validation-error logging"),("error points","BasicURLParser, Host")]),
p("C15","Host validators accept exactly the valid hosts",
 "For every string, the host, domain, IPv4-address, IPv6-address and opaque-host validators return true exactly for valid host strings as the URL Standard's writing rules (strict domain-to-ASCII, four decimal parts in range, IPv6 syntax, URL units without forbidden host code points) define them, with the corresponding error reported otherwise. The scheme validator accepts exactly registered schemes, ASCII case-insensitively; none of them raises.",
 ["inputs"],"every string for every validator",
 "Accept/reject boundary over all strings; tests sample it.",
 [("validators","HostValidator, URLValidator.is_valid_url_scheme")]),
p("C16","Objects are isolated; arguments are never modified",
 "In every program, an operation changes at most the object it is called on: URLs built from other URLs, search parameters built from others, and lists or mappings passed as arguments stay unchanged and share nothing with the result. Threads that work each on its own objects behave as if alone, also when they all use the same URLs as bases or otherwise only read them.",
 ["histories","schedules"],"every program over several URL and URLSearchParams objects; concurrent threads on disjoint objects, with shared bases that are only read",
 "Aliasing shows only when one object is changed after another was derived from it.",
 [("record copying","BasicURLParser (base handling), URLRecord"),("list copying","URLSearchParams.__init__"),("shared caches","IDNA._cache")]),
p("C17","Equality means equal serialization",
 "Two URL objects (and two URL records) are equal exactly when their serializations are equal, != is the negation, and comparing with fragments excluded compares the serializations without fragment; the relation is symmetric and holds at any point of any history. Two URLSearchParams are equal exactly when their lists are.",
 ["inputs","histories"],"every pair of URLs and every history before the comparison",
 "A relation over pairs and histories.",
 [("equality","URL.__eq__, URL.equals, URLRecord.__eq__, URLRecord.equals, URLSearchParams.__eq__")]),
p("C18","Parsing and setting are total: only documented errors",
 "For every string argument (any code points, any length), parsing, resolving, host parsing, can_parse, validators and attribute assignment terminate and either succeed or raise the documented parse-error exception, with the class documented for the failure (host, IPv4, IPv6 or general). No other exception escapes, can_parse and validators never raise, and a rejected assignment leaves the object usable and consistent.",
 ["inputs","histories"],"every string argument of every entry point, in any history",
 "Absence of crashes and hangs over all strings cannot be sampled.",
 [("raising sites","BasicURLParser, Host, IDNA"),("exception classes","URLParseError hierarchy"),("setters","URL")]),
p("C19","urlparse gives the standard's URL in six parts",
 "For every URL string, base, encoding and fragment option, urlparse() fails exactly when parsing fails and otherwise returns scheme, network location (credentials, host and port as serialized), path, parameters (what follows the first ';' of the path), query and fragment of the parsed URL; with fragments disallowed the fragment stays attached to the last non-empty of query, parameters or path.",
 ["inputs","configurations"],"every string, base, encoding and fragment option",
 "Tests check a few URLs.",
 [("urlparse","urlparse")]),
p("C20","Parsing onto an existing record changes only its component",
 "For every URL record, every start state the URL API uses (scheme, host, hostname, port, path, query, fragment) and every input, the low-level parser changes the given record in place exactly as the standard's state-override rules say: only the component concerned is affected, illegal changes are refused, and validation errors are reported as prescribed.",
 ["inputs","configurations"],"every (record, start state, input)",
 "Only reached by tests through setters on fresh URLs.",
 [("state override","BasicURLParser.parse")]),
p("C21","Query encoding applies to special non-websocket URLs only",
 "For every URL and encoding, the query of a special URL other than ws and wss is encoded with the given encoding (UTF-16 encodings meaning UTF-8), characters it cannot represent becoming percent-encoded decimal character references; every other component, and the query of every other URL, is UTF-8. The result is byte-for-byte what percent-encode-after-encoding prescribes.",
 ["inputs","configurations"],"every query text x encoding x scheme",
 "Tests use two or three encodings and texts.",
 [("query state","BasicURLParser"),("encoder","string_percent_encode")]),
p("C22","Validation errors are logged, one record each, and only then",
 "Whenever parse_url, URL() or Host.parse (or the parser started on an existing record) meets validation errors, and no validity state or one with disable_logging False is passed, exactly one record per validation error reaches the 'urlstd' logger, in the order the errors were met; its message begins with the error's type, the error that makes parsing fail has level ERROR and every other level INFO, so that setting that logger to ERROR leaves exactly the fatal ones. The messages are the descriptions the validity state collects. With a default validity state (disable_logging True) nothing is logged. Logging at any level, DEBUG included, never changes results nor raises.",
 ["inputs","configurations"],"every string, base and record; every log level; with and without a validity state",
 "The tests never look at the log; about eighty call sites choose level, type and pass the state on.",
 [("validation-error logging","_Logger, get_logger"),("error collection","ValidityState.prepend"),("error points","BasicURLParser, Host, IPv4Address, IPv6Address, IDNA")],
 observe="logging.getLogger('urlstd') handlers"),
p("C23","URL records answer as the standard defines",
 "For every URL record, however it came about (parsed, resolved, changed by the low-level parser, or built from components), its queries give the standard's answer: is_special and is_not_special (scheme one of ftp, file, http, https, ws, wss), includes_credentials, cannot_have_username_password_port (null or empty host, or file), has_opaque_path, the host, path and URL serializers with and without fragment (str() and href included), origin, and equality by serialization with and without fragments. Asking changes nothing; shorten_path removes the last path segment, except a lone normalized Windows drive letter of a file URL, and nothing else.",
 ["inputs","configurations"],"every record over all component values",
 "Tests ask parsed records only, and few of them.",
 [("URL record","URLRecord"),("host serializer","Host.serialize")]),
p("C24","A validity state holds exactly the errors of the calls it was given to",
 "For every sequence of calls that share one ValidityState, the answer of each call is the one it gives without a state or with a fresh one; after a validator (HostValidator, URLValidator) or URL.can_parse the state holds the errors of that call only, and after parse_url, Host.parse or the low-level parser what it held before plus the errors of that call, newest first, failed calls included. valid, validation_errors, error_types and descriptions always agree with each other, each description starts with its type, and disable_logging stays as set.",
 ["histories","inputs"],"every sequence of calls of every entry point on one state",
 "Tests pass a fresh state to each call.",
 [("validity state","ValidityState"),("resets","HostValidator, URLValidator, URL.can_parse"),("error collection","_Logger.error, _Logger.info")]),
p("C25","Results depend on the arguments only, whatever was called before",
 "For every program, each call of every entry point - parsing, resolving, host parsing, validators, IDNA, percent- and form-coding, urlparse, origins, comparisons, URL and URLSearchParams histories - gives the result it gives in a fresh process: it does not depend on what was called before (with the same text and another base, encoding, flag, case or kind, or failing), how often, or on what the program did to the records, URLs, lists, parameters or validity states that earlier calls returned. Equal calls give equal results that share no mutable part.",
 ["histories","inputs"],"every sequence of calls of all entry points, returned objects modified in between",
 "Tests make each call once, in one order; nothing compares a call with its repetition after others.",
 [("shared state","module level of urlstd.parse: IDNA object, tables, caches"),("results","URL, URLRecord, parse_qsl, Host.parse, string_percent_encode")]),
]
for d in L: assert len(d["title"])<=80, d["id"]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in L))
M={"version":1,"setup_cmd":"true","checks":[],"not_applicable":[]}
QD="TLA+ specification of the URL Standard, model checked with TLC; behaviours TLC generates are replayed into the real code and behaviours recorded from the real code are checked against the specification by TLC (trace validation)"
for d in L:
    c="/opt/venv/bin/python -B /verif/check.py --property %s --tier "%d["id"]
    M["checks"].append({"property":d["id"],"quick_cmd":c+"quick","thorough_cmd":c+"thorough","evidence_file":"evidence/%s.json"%d["id"],
      "technique":QD,"level":"model_checking",
      "level_note":"exhaustive on the model within the bounds in the evidence file; on the code, every TLC-generated behaviour in those bounds plus directed and coverage-guided recorded behaviours, all judged by the specification"})
json.dump(M,open(os.path.join(os.path.dirname(out),"MANIFEST.json"),"w"),indent=1)
