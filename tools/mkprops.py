import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
PARSE="include/boost/url/detail/parse.hpp"; CT="include/boost/url/detail/char_type.hpp"
UB="include/boost/url/impl/url_base.ipp"; UBH="include/boost/url/url_base.hpp"
UV="include/boost/url/impl/url_view.ipp"; UVH="include/boost/url/url_view.hpp"
ST="include/boost/url/detail/storage.hpp"; PT="include/boost/url/detail/parts.hpp"
BU="include/boost/url/basic_url.hpp"; SP="include/boost/url/static_pool.hpp"
offs=("part offsets","nine offsets delimiting scheme..fragment in the character buffer, plus segment count, parameter count and host kind","%s parts"%PT)

p("C01","Exactly the RFC 3986 URI-references are accepted",
  "Constructing a URL container, constructing a URL view, or assigning a whole URL succeeds if and only if the bytes form a URI-reference (absolute URI or relative reference) of the RFC 3986 grammar. Anything else is rejected with the library's invalid-part exception. The container and the view always agree.",
  ["inputs"],"every byte string of every length, including NUL, control and non-ASCII bytes, truncated percent escapes, and every IPv4, IPv6 and IPvFuture spelling",
  "The tests parse a few dozen hand-picked URLs; acceptance is a statement about all byte strings.",
  [PARSE,CT,UV,UB],[("recursive-descent parser","%s parser, parse_url"%PARSE),("character class tables and percent validation","%s is_*_char, pct_set::parse"%CT)],[offs],
  ["url(string_view)","url_view(string_view)","set_encoded_url"])
p("C02","Parsing splits a URL into exactly its RFC 3986 components",
  "For every accepted string, every component accessor of the container and of the view (whole URL, origin, scheme, authority, userinfo, user, password, host, port, host-and-port, path, query, fragment, and the variants that keep their delimiters) returns exactly the bytes the RFC 3986 grammar assigns to that component. The parts, written one after another, are the input byte for byte, and empty components are told apart from absent ones where the API has an accessor for it.",
  ["inputs"],"every valid URI-reference",
  "Tests compare a handful of URLs, most with one interesting component; boundaries interact (an '@' or ':' moves four components).",
  [PARSE,PT,UV,UB],[("part offsets set by the parser","%s mark"%PARSE),("accessors strip delimiters","%s, %s"%(UV,UB))],[offs],["all const accessors of url, url_view"])
p("C03","The host is classified as exactly the right kind of address",
  "After parsing or after any modification, the reported host kind is none for an empty or absent host, IPv4 for exactly the dotted-decimal addresses of RFC 3986, IPv6 for exactly its bracketed IPv6 literals, IPvFuture for bracketed future literals, and registered name for every other host. Malformed bracketed literals are never accepted.",
  ["inputs","histories"],"every host text, reached by parsing and by every host-changing, authority-changing or origin-changing modifier in any history",
  "The tests sample some 60 IPv6 and 20 IPv4 literals, never after a sequence of modifications.",
  [PARSE,UB],[("IPv4/IPv6 recognisers","%s match_ip_v4, parse_ip_v6, parse_ip_literal, parse_plain_hostname"%PARSE),("host kind copied by modifiers",UB)],[("host kind","cached classification of the host",PT)],["host_type()"])
p("C04","Percent-decoding is exact for every byte",
  "Every decoding accessor (user, password, host, query, fragment, path segment, parameter key and value) returns the encoded text with every percent escape, in either letter case, replaced by the byte it denotes and every other byte unchanged. Decoding is the same from the container and from the view, and with any string allocator.",
  ["inputs"],"every encoded component, all 256 byte values, both hex letter cases, escapes at every position",
  "Tests decode a few escapes such as %20; 256 x letter case x position is never swept.",
  [CT,UVH,UBH],[("decode","%s decode, decoded_size, hex_digit"%CT)],None,["user() password() host() query() fragment() string() key() value()"])
p("C05","Plain-text setters store any bytes and read back the same bytes",
  "Setting user, password, host, query, fragment or a path segment from plain text succeeds for every byte string that leaves an unambiguous URL, and the decoding accessor then returns exactly the bytes that were given. The stored encoded text escapes exactly the bytes that may not appear literally in that component, as '%' and two upper-case hex digits, and an IP literal given as a host is stored as it is.",
  ["inputs"],"every byte string as the value, on every URL",
  "Tests encode a few delimiters; a wrong entry in one of the character tables shows for one byte in one component.",
  [CT,UB],[("pct_set encode / encoded_size with per-component tables",CT),("setters size then encode",UB)],None,["set_user set_password set_host set_query set_fragment segments().insert/replace"])
p("C06","A modifier changes its own component and nothing else",
  "After a successful modification the targeted component has exactly the requested value, and every other component has exactly the value it had before; the only further changes are the delimiters the new component needs ('//', '@', ':') or no longer needs, as documented for that modifier. This holds whatever the component's previous length or presence and whatever sequence of modifications came before.",
  ["inputs","histories"],"every modifier with every valid argument, on every URL, after every history of earlier modifications",
  "Tests apply single modifiers to short URLs and compare the result string; the grow, shrink and same-size paths for each of the part boundaries and prior states are not covered.",
  [UB,PT],[("resize of one part or a range of parts, then split","%s resize, %s split"%(UB,PT))],[offs],["all set_* functions"])
p("C07","A URL is always valid and self-consistent after any modification history",
  "After any sequence of modifications, successful or rejected, the stored string is a valid URI-reference, and parsing it afresh yields exactly the same components, host kind, segment list and count, and parameter list and count that the modified object reports. A modification whose result would be parsed differently (for example a path starting with '//' without an authority) is rejected instead.",
  ["histories","inputs"],"every finite history of modifiers, segment edits and assignments",
  "Tests never re-parse after a sequence of edits; stale counters and ambiguous spellings only show later.",
  [UB,PT],[("modifiers keep offsets, counters and host kind in step",UB),("ambiguity checks before a modification",UB)],[offs],["encoded_url() compared with a fresh parse"])
p("C08","A rejected modification throws invalid_part and leaves the URL unchanged",
  "Every setter that takes encoded text accepts exactly the strings that its component's grammar allows and that leave an unambiguous URL; any other argument makes it throw the library's invalid-part exception (a std::invalid_argument). After such an exception every observable of the URL is what it was before.",
  ["inputs","histories"],"every argument of every encoded setter and segment edit, on every URL",
  "Tests try a few bad characters per setter and never look at the object afterwards.",
  [UB,PARSE,CT],[("validate before modifying","%s set_encoded_*, segments insert_encoded/replace_encoded"%UB),("exception types","include/boost/url/error.hpp")],None,["set_encoded_*, set_*_part, set_scheme, set_port, insert_encoded, replace_encoded"])
p("C09","Allocation failure at any point leaves the URL unchanged and leaks nothing",
  "If the allocator throws during a constructor or a modifier, the exception reaches the caller, an existing URL keeps exactly its former value and stays usable, and no memory is leaked. Every block is returned exactly once, with the size it was obtained with. A URL that would exceed the allocator's maximum size is refused with a length error, unchanged, and the allocator is never asked for more than that.",
  ["fault_sequences","histories"],"failure of every single allocation (first, second, ...) made by every operation of a history, and random failure sequences",
  "No test ever makes an allocation fail.",
  [ST,UB,BU],[("allocate before modifying","%s reserve/resize; %s resize"%(ST,UB)),("replace reserves before erasing","%s replace"%UB)],[("buffer, size, capacity","owned block",ST)],["basic_url<throwing allocator>"])
p("C10","No input or call sequence causes undefined behaviour or an abort",
  "For any input bytes and any sequence of valid API calls, the library never reads or writes outside the caller's string or its own buffer, never uses freed or uninitialised memory, never executes undefined behaviour, never trips its own internal assertions, and never fails to terminate. Input strings need not be NUL-terminated.",
  ["inputs","histories"],"every byte string and every call history",
  "Tests run short, NUL-terminated, mostly valid inputs without sanitizers.",
  [PARSE,CT,UB,UV,ST,SP],[("bounds tests in the parser",PARSE),("internal assertions",UB),("memmove/memcpy with offsets",UB)],[offs],["ASan, UBSan, MSan, valgrind, enabled assertions"])
p("C11","Container storage is NUL-terminated, sufficient and not needlessly reallocated",
  "Once a container holds characters, data() points to size() characters followed by a NUL, size() equals the length of the URL, and the capacity is never smaller than the size. A modification whose result fits in the current capacity does not allocate or move the buffer, and appending repeatedly costs only a logarithmic number of allocations.",
  ["histories","inputs"],"every history of modifications, shrinking and growing",
  "Tests never look at the terminator or at capacity.",
  [ST,UB,UBH],[("capacity doubling","%s reserve"%ST),("terminator kept by every move","%s resize, %s resize"%(ST,UB))],[("buffer, size, capacity","owned block",ST)],["data() size() capacity via allocator trace"])
p("C12","The segments view lists exactly the path segments, in both directions",
  "For every URL, iterating the segments forward yields exactly the '/'-separated segments of the path in order (none for an empty path, a leading '/' starting the first one), size() and empty() agree with that count, and iterating backward from the end yields the same list reversed. Nothing outside the path is ever included, and the container's const, mutable and the view's segments agree.",
  ["inputs","histories"],"every URL, with and without query and fragment, parsed or modified",
  "Tests iterate a few short paths without a query.",
  [UV,UB],[("offset/length iterator",  "%s, %s segments_type::iterator"%(UV,UB))],[("segment count","cached number of segments",PT)],["segments()"])
p("C13","Segment edits act as insert, replace and erase on the list of segments",
  "Inserting, replacing or erasing segments through iterators changes the list of segments exactly as the same operation on a sequence would, leaves every other component unchanged, keeps an absolute path absolute and a relative path relative, and returns a valid iterator to the position after the edit. An insertion or replacement whose resulting list has no unambiguous spelling in the URL is rejected with invalid-part and changes nothing; since a relative path cannot begin with an empty segment, erasing from its front also erases the empty segments that would come first.",
  ["histories","inputs"],"every sequence of edits at every position of every path, encoded and plain, with and without query, fragment, authority",
  "Tests edit one absolute path with no query at a few positions.",
  [UB],[("erase / insert_impl / replace","%s segments_type"%UB)],[("segment count, path offsets","",PT)],["segments().insert/erase/replace"])
p("C14","The params view lists exactly the query parameters and looks them up by key",
  "For every URL, iterating the parameters forward or backward yields exactly the '&'-separated items of the query in order, each split at its first '=' into key and value (no parameters when there is no query), and size() and empty() agree. Lookup by decoded key (contains, count, find, subscript, at) finds exactly the parameters whose decoded key equals the given bytes, first match first, and a missing key gives false, zero, end, the empty string or an out-of-range exception.",
  ["inputs","histories"],"every query string, any keys with and without '=', duplicates, empty items, percent escapes",
  "Tests use a few well-formed key=value lists.",
  [PARSE,UV,UB,CT],[("parse_query","%s parse_query"%PARSE),("params iterator and lookup","%s, %s params_type"%(UV,UB)),("key_equal",CT)],[("parameter count","",PT)],["params()"])
p("C15","Results depend only on the arguments, never on stale or uninitialised memory",
  "The observable state of a URL is a function of the sequence of operations that produced it: it does not depend on the previous contents of the memory it was given, on buffer capacity left by earlier values, or on the alignment of inputs. Two URLs that hold the same string are indistinguishable through the accessors, whatever histories produced them.",
  ["histories","configurations"],"every history, every content of the memory handed out by the allocator",
  "Tests run each case once with whatever the heap contains.",
  [ST,UB,PT],[("buffer initialised before use",ST),("state is the string plus offsets",PT)],None,["dual runs with different fill patterns; MSan; valgrind"])
p("C16","Setting different components commutes",
  "When modifications that set different components to non-empty values succeed in each order in which they are applied, the resulting URL is the same for every order. Applying the same setter with the same argument twice gives the same URL as applying it once.",
  ["histories","inputs"],"every set of setters on distinct components, every order, every starting URL",
  "Tests apply one setter at a time.",
  [UB,PT],[("resize keeps later parts in place","%s resize"%UB)],[offs],["set_* in permuted orders"])
p("C17","Concurrent reads of one URL and use of distinct URLs are race-free",
  "Any number of threads may parse, build and modify their own URLs, call the scheme and error functions, and read a shared unmodified URL or view at the same time, without data races and with the same results as a single thread.",
  ["schedules"],"every interleaving of threads using distinct objects or only const access to shared ones, including first use",
  "All tests are single-threaded.",
  [CT,"include/boost/url/impl/error.ipp","include/boost/url/impl/scheme.ipp",UV,UB],[("immutable tables and magic statics","%s, impl/error.ipp"%CT),("const accessors do not write",UB)],None,["ThreadSanitizer, result comparison"])
p("C18","Every supported build configuration behaves identically",
  "Compiled as a static or shared library, header-only, or standalone, with assertions on or off, at any optimisation level, with gcc or clang and with signed or unsigned plain char, the library accepts the same inputs and produces the same observable results.",
  ["configurations","inputs"],"the supported configurations x every workload",
  "Tests build one configuration.",
  ["include/boost/url/detail/config.hpp","include/boost/url/config.hpp","src/src.cpp",CT,PARSE],[("configuration macros","detail/config.hpp"),("char handling through unsigned tables",CT)],None,["digest of one workload per configuration"])
p("C19","Pool allocations are disjoint, aligned, in bounds, or refused",
  "Every block obtained from a static pool lies wholly inside the pool's buffer, is aligned for its type, and overlaps no other block handed out by that pool. A request that fits behind the blocks handed out so far succeeds. A request that does not fit, including one whose size or alignment padding would overflow, throws std::bad_alloc and leaves the pool usable; a URL stored in a pool behaves as one stored on the heap.",
  ["histories","inputs"],"every sequence of allocations of any type and count, every pool size and buffer alignment",
  "The one pool test allocates one string from an aligned pool.",
  [SP],[("bump allocation with alignment","%s basic_static_pool::allocate"%SP)],[("top pointer","next free byte",SP)],["static_pool<N>::allocator(), basic_static_pool"])
p("C20","Scheme names map to scheme ids exactly, whatever their letter case",
  "Looking up a scheme name returns the id of the known scheme it spells, ignoring ASCII letter case, and 'unknown' for every other string, and the name of each known id maps back to that id. Exactly ftp, file, http, https, ws and wss count as special. Scheme normalisation lower-cases exactly the ASCII letters of the scheme and changes nothing else in the URL.",
  ["inputs"],"every byte string, every id, every letter-case variant",
  "Tests look up each name in a few spellings.",
  ["include/boost/url/impl/scheme.ipp",UB],[("string_to_scheme, to_string, is_special","impl/scheme.ipp"),("normalize_scheme",UB)],None,["string_to_scheme to_string is_special normalize normalize_scheme"])
p("C21","Reading a URL never modifies, allocates or copies it",
  "Parsing a view and every accessor that returns encoded text work without allocating and without writing to the input or to the URL, and the text they return lies inside the caller's string (view) or the container's buffer. A view never touches memory outside the string it was given, and a container keeps no reference to the string it was built from.",
  ["inputs","histories"],"every URL and every accessor",
  "Tests cannot see allocation or aliasing.",
  [UV,UB,UVH],[("string_view into the buffer via offsets","%s get"%PT)],None,["read-only pages around the input, allocation trace, pointer range checks"])
p("C22","Work is proportional to the length of the URL",
  "Parsing a string, applying one modifier or edit, and one full iteration over segments or parameters each take time at most proportional to the total length of the URL and the argument (plus the listed lookups), with no input of any shape that makes it super-linear.",
  ["inputs"],"every input shape, growing lengths",
  "Tests use inputs shorter than 100 bytes.",
  [PARSE,UB,UV,CT],[("single pass with bounded backtracking","%s parse_authority, match_scheme"%PARSE)],None,["executed-edge and moved-byte counts at n and 2n"])
p("C23","Error codes, conditions and exceptions form a consistent taxonomy",
  "Every library error code belongs to the library's category, has a non-empty message, converts to true unless it is zero, and is equivalent to the documented generic condition and to no other. Library exceptions derive from the documented standard exceptions, so that catching those catches every failure, and each carries a non-empty message.",
  ["inputs","configurations"],"every code value, every pair of codes and conditions, every failing call",
  "Tests check each code once against its own condition.",
  ["include/boost/url/error.hpp","include/boost/url/impl/error.ipp","include/boost/url/impl/error.hpp"],[("error categories","impl/error.ipp"),("exception types","error.hpp")],None,["error_code, error_condition, thrown objects"])
p("C24","Assigning one URL to another copies its value",
  "After assigning a URL container to another of the same type, the target equals the source in every observable, the source is unchanged, and later changes to either do not affect the other. Self-assignment changes nothing.",
  ["histories","inputs"],"every source, every target with any history, chains and self-assignment",
  "No test assigns URLs.",
  [BU],[("operator=",BU)],None,["basic_url::operator="])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
