"""Writes /verif/properties.jsonl (kept as code so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "A graph is exactly the set of triples its history left in it",
 "After any sequence of additions, removals, bulk additions, pattern removals and merges, issued by any number of clients whose result iterators are still open, a graph holds exactly the triples a plain set would hold. Every way of looking at it agrees with that set: membership, length, iteration, snapshot, all eight match patterns (only None is a wildcard), and the lists of subjects, predicates and objects. A mutation made while a result iterator is open may end that iterator with an error, but the iterator never yields a triple that was not in the graph since it was opened, and the graph itself is never damaged.",
 ["histories", "schedules", "inputs"],
 "Every history of mutations and reads by several clients over one or more graphs, every interleaving of their result iterators at single-step granularity, and all terms (IRIs including the empty relative IRI, blank nodes, literals with language or datatype).",
 "The tests add or remove one triple and ask one pattern; they never combine patterns with removals, never ask for subjects/predicates/objects, never call pattern removal or merge, and never have an iterator open while another client writes.",
 ["src/pymantic/primitives.py"],
 [("three nested indexes kept in step with the triple set", "primitives.py Graph.add / Graph.remove"),
  ("index choice per pattern", "primitives.py Graph.match"),
  ("pattern removal, bulk add, merge", "primitives.py Graph.removeMatches / addAll / merge")],
 ["Graph.match", "Graph.__contains__", "Graph.__len__", "Graph.__iter__", "Graph.toArray", "Graph.subjects", "Graph.predicates", "Graph.objects"],
 [("triples", "the set of triples", "Graph._triples"), ("indexes", "spo, pos, osp", "Graph._spo/_pos/_osp")])

prop("C02", "A dataset is exactly the quads its history left, each in its own named graph",
 "After any sequence of quad additions and removals, bulk loads, pattern removals, and attaching or detaching of whole graphs by any number of clients, a dataset holds exactly the quads a plain set would hold. Membership (of a quad, or of a triple in any graph), length, iteration, snapshot, the listed named graphs and every match pattern with or without a graph name agree with that set, and every quad is reported under the name it is stored under. Operations on one named graph never change, expose or create another.",
 ["histories", "schedules", "inputs"],
 "Every history over several named graphs and the unnamed default graph (name None), including graphs attached under one or two names, interleaved with open result iterators.",
 "The tests add quads and ask one pattern; none removes by pattern, attaches a graph and then mutates it, asks for a graph that does not exist, or compares iteration with membership.",
 ["src/pymantic/primitives.py"],
 [("one graph per name", "primitives.py Dataset.add / remove / add_graph / remove_graph"),
  ("quad patterns routed to one or all graphs", "primitives.py Dataset.match / removeMatches / __iter__ / __contains__")],
 ["Dataset.match", "Dataset.__contains__", "Dataset.__len__", "Dataset.__iter__", "Dataset.toArray", "Dataset.graphs"],
 [("graphs by name", "name -> Graph", "Dataset._graphs")])

prop("C03", "Concurrent readers never disturb the store or each other",
 "Any number of threads may read one graph or dataset at the same time (matching, membership, iteration, subject/predicate/object listings, resource access and classification, list traversal, serialization), including questions about terms and named graphs that are not there. In every interleaving each reader gets exactly the answer it would get alone and without error, and afterwards the store is unchanged: same triples, same listed terms, same named graphs.",
 ["schedules", "inputs"],
 "Every interleaving of reader threads, down to the bytecode inside the library, over any stored content and any questions.",
 "The tests are single-threaded and never read the store again after a lookup that misses; a read that inserts or caches something passes all of them.",
 ["src/pymantic/primitives.py", "src/pymantic/rdf.py", "src/pymantic/serializers.py"],
 [("membership is tested before an auto-creating index is subscripted", "primitives.py Graph.match / Dataset.match / Dataset.__contains__"),
  ("resource reads and serializers only read", "rdf.py Resource._objects_for_key, classify, List; serializers.py")],
 ["results of every read API", "store content and listings after the run"])

prop("C04", "A failed or interrupted mutation changes nothing beyond what it completed",
 "A mutation that is rejected (removing an absent triple or quad, adding something that is not a statement, or attaching an unnamed graph) raises and leaves the graph or dataset exactly as it was, in every view. A bulk addition whose source fails at any item leaves exactly the items delivered before the failure added and nothing else, raises the source's own error, and the store keeps working afterwards.",
 ["fault_sequences", "histories", "inputs"],
 "Every point at which a feeding iterator, parser or argument can fail, inside every history of other operations by other clients.",
 "No test makes a mutation fail; only the happy path of each mutator is exercised.",
 ["src/pymantic/primitives.py"],
 [("membership set updated or checked first, so a failure precedes any index change", "primitives.py Graph.add / Graph.remove"),
  ("items are added one at a time as the source yields them", "primitives.py Graph.addAll / Dataset.addAll"),
  ("rejections before mutation", "primitives.py Dataset.add_graph / remove")],
 ["exception raised", "all read APIs afterwards"])

prop("C05", "Overlapping parses on the shared parsers are isolated from each other",
 "However parses overlap - on different threads in any interleaving, or nested because a source or document loader itself parses - each parse with the shared N-Triples, N-Quads, Turtle or JSON-LD parser produces the same statements, up to renaming of blank nodes, as if it ran alone, and puts them only into its own target. Within one parse equal blank node labels mean one node and different labels different nodes; no blank node, prefix or base of one parse is ever visible in another.",
 ["schedules", "inputs", "histories"],
 "Every interleaving of parsing threads at stream-read and bytecode granularity, every mix of formats, string and stream sources, and nesting depth; targets are separate per thread and may be shared by nested parses.",
 "All tests parse one document at a time on one thread; parser state kept in a place shared between threads or calls passes them.",
 ["src/pymantic/parsers/base.py", "src/pymantic/parsers/lark/base.py", "src/pymantic/parsers/lark/ntriples.py", "src/pymantic/parsers/lark/nquads.py", "src/pymantic/parsers/lark/turtle.py", "src/pymantic/parsers/jsonld.py"],
 [("thread-local per-call state", "parsers/base.py BaseParser._call_state, _prepare_parse, _cleanup_parse"),
  ("a new transformer per Turtle document", "parsers/lark/turtle.py parse")],
 ["graph returned or filled by each parse", "identity of blank nodes"],
 [("per-call state", "blank node scope and target graph of the running parse", "BaseParser._call_state")])

prop("C06", "A parse that fails leaves only what it delivered, and the parser intact",
 "When a parse fails - the source raises at any point or ends inside a statement, the text is malformed anywhere, a document loader fails, or the target refuses a statement - the caller gets the error, and never a silently shortened result. A line-based stream leaves exactly the statements of the lines before the fault in the target; a document given whole leaves nothing unless the target itself refused. Every later parse with the same parser, on any thread, behaves as with a fresh one, with nothing left over from the failed one.",
 ["fault_sequences", "inputs", "histories", "schedules"],
 "Every byte offset or statement at which a source, document or target can fail, in every sequence of failing and succeeding parses on one or several threads.",
 "The tests contain no I/O error, no failing target, and never parse again after a rejected document.",
 ["src/pymantic/parsers/base.py", "src/pymantic/parsers/lark/base.py", "src/pymantic/parsers/lark/turtle.py", "src/pymantic/parsers/jsonld.py"],
 [("per-call state reset before and removed after each parse", "parsers/base.py _prepare_parse/_cleanup_parse; lark/base.py LarkParser.parse try/finally"),
  ("whole documents are parsed before anything is added", "lark/base.py LarkParser.parse, lark/turtle.py parse"),
  ("streams are added statement by statement", "lark/base.py line_by_line_parser")],
 ["exception raised", "target graph content", "later parses"])

prop("C07", "What is parsed does not depend on how the source delivers it",
 "A document in N-Triples, N-Quads or Turtle yields exactly the statements it stands for, up to renaming of blank nodes, whether it is given whole or read from a stream, however that stream splits it: any chunk sizes, characters split across chunks, any line-ending style or newline mode, blank lines, comments, missing final newline, slow or short reads, text or (where bytes are accepted) encoded bytes. No statement is lost, duplicated, altered or invented at a chunk, line or end-of-file boundary.",
 ["schedules", "inputs", "fault_sequences"],
 "Every document of the line-based and Turtle formats, and every way a conforming stream can deliver its bytes.",
 "The tests parse short in-memory streams with one newline per statement, and never a Turtle stream.",
 ["src/pymantic/parsers/lark/base.py", "src/pymantic/parsers/lark/turtle.py", "src/pymantic/parsers/lark/ntriples.py", "src/pymantic/parsers/lark/nquads.py"],
 [("line-by-line parsing of streams", "lark/base.py line_by_line_parser"),
  ("whole-stream read", "lark/turtle.py parse"), ("decoding of bytes", "lark/base.py parse_string, lark/turtle.py parse")],
 ["graph filled by parse"])

prop("C08", "An N-Triples or N-Quads export reloads to the same data, even a torn one",
 "Exporting any graph or dataset to a stream and loading the export gives back the same statements up to renaming of blank nodes (and percent-encoding of characters a URI cannot contain). If writing fails or the machine dies at any byte, the error reaches the caller and the complete lines that survived load as statements of the original with blank nodes still distinguished, never as anything else; the source is unchanged, and exporting again to a healthy stream succeeds completely.",
 ["crash_points", "fault_sequences", "inputs"],
 "Every graph and dataset of valid statements (any Unicode text in literals, the unnamed graph included), every buffering mode, every write at which the stream can fail, fill up or be torn.",
 "One test round-trips two IRIs-only triples through an in-memory buffer; no literal, blank node, language, quad or failing stream is ever written.",
 ["src/pymantic/serializers.py", "src/pymantic/primitives.py", "src/pymantic/util.py", "src/pymantic/parsers/lark/ntriples.py", "src/pymantic/parsers/lark/nquads.py"],
 [("escaping", "serializers.py nt_escape; primitives.py toNT"),
  ("one statement per line, written in one call", "serializers.py serialize_ntriples/serialize_nquads; primitives.py Triple.__str__/Quad.__str__"),
  ("unescaping", "util.py decode_literal")],
 ["bytes on the simulated disk", "reloaded graph", "exception raised"])

prop("C09", "A Turtle export reloads to the same graph",
 "Exporting any graph of valid triples (with normalized IRIs) as Turtle, with any prefixes and with or without a base, and loading the result gives back the same triples up to renaming of blank nodes: strings, languages, typed values, blank nodes however shared, and RDF lists whether well-formed, shared, nested, cyclic or broken. If writing fails at any point the error reaches the caller, the graph and the prefix profile are unchanged, and exporting again to a healthy stream gives the complete document, the same as if nothing had failed.",
 ["fault_sequences", "inputs", "configurations"],
 "Every graph of valid triples, every prefix map and base, every write at which the stream can fail.",
 "The tests export five small graphs of IRIs, plain strings and one list of strings, and compare text; blank nodes, escapes, other term kinds and failing streams are not written.",
 ["src/pymantic/serializers.py", "src/pymantic/rdf.py", "src/pymantic/primitives.py", "src/pymantic/parsers/lark/turtle.py"],
 [("term representation", "serializers.py turtle_repr, turtle_string_escape"),
  ("subjects, predicates, objects and inline lists", "serializers.py serialize_turtle"),
  ("prefix abbreviation", "primitives.py to_curie / PrefixMap.shrink")],
 ["text written", "reloaded graph"])

prop("C10", "Resource access follows the documented get/set/delete rules in every history",
 "For any history of reading, assigning, deleting and testing predicates through resource views (multi-valued or scalar predicates; no filter, language, datatype, class or None filter), by several clients holding views of one graph, the graph ends up exactly as the documented rules say, other subjects and predicates are untouched, reads return exactly the selected values, and deletion removes exactly what reading selects. An assignment that is refused leaves the graph as it was. Erasing, copying, listing instances of a class and following references backwards touch and return exactly the triples concerned.",
 ["histories", "schedules", "inputs"],
 "Every interleaved history of operations through differently configured views over shared subjects and predicates, including refused values and lazily consumed results.",
 "The tests run one fixed short sequence per feature; they do not combine filters, value kinds, refusals and other views of the same subject.",
 ["src/pymantic/rdf.py", "src/pymantic/primitives.py"],
 [("which objects a key selects", "rdf.py Resource._interpret_key, _objects_for_key"),
  ("which objects an assignment replaces", "rdf.py _objects_for_implicit_set, _objects_for_explicit_set, check_objects"),
  ("remove, then add", "rdf.py Resource.__setitem__/__delitem__")],
 ["resource[key]", "key in resource", "get_scalar", "graph content", "Resource.in_graph", "object_of", "erase", "copy"])

prop("C11", "Classification gives the right class in every schedule and hash order",
 "Whenever a resource is classified, from any number of threads at once and while new combinations are being met for the first time, the result is an instance of every registered class that applies to its types and of no other registered class that is not an ancestor of one, and where classes had to be combined it claims all the types involved. Resources with the same set of types get the same class whichever thread meets the combination first, and the composition of a combined class is the same in every process, independent of hash ordering; classes registered for several types or inheriting from each other never make classification fail.",
 ["schedules", "configurations", "inputs"],
 "Every interleaving of classifying threads inside the library, every hash seed, every set of registered classes with a consistent linearisation (inheriting ones and ones registered twice included) and every combination of types.",
 "One test classifies one two-type resource on one thread under one hash seed.",
 ["src/pymantic/rdf.py"],
 [("registry of RDF types and of type combinations", "rdf.py MetaResource._classes, register_class"),
  ("creation and publication of combined classes", "rdf.py Resource.classify")],
 ["type of classified resource", "its rdf_classes and is_a()", "in_graph"],
 [("registry", "type or type combination -> class", "MetaResource._classes")])

prop("C12", "Distinct blank nodes are never confused, whatever the allocator does",
 "Blank nodes created separately (by the environment, by the parsers, or by creating a resource without naming it) are distinct nodes with distinct labels for as long as both exist, whatever memory is reused as other nodes are discarded. A node keeps one identity and one label for life, data attached to one never shows up on another, and any set of them written out and read back is still the same number of nodes with the same data.",
 ["schedules", "histories", "configurations"],
 "Every history of creating, storing, exporting and discarding blank nodes and blank resources, and every address-reuse pattern of the allocator.",
 "One test creates two blank nodes that are both alive and compares their labels.",
 ["src/pymantic/primitives.py", "src/pymantic/rdf.py", "src/pymantic/parsers/base.py", "src/pymantic/serializers.py"],
 [("label derived from the object's identity", "primitives.py BlankNode.value"),
  ("blank resources", "rdf.py Resource.new"), ("label scope", "parsers/base.py make_blank_node")],
 ["BlankNode equality, hash and label", "graphs holding them", "exports"])

prop("C13", "A SPARQL call returns the server's answer or an error, never something else",
 "For every response or network failure, a query returns the complete answer the server sent in the form its content type calls for (JSON bindings, result XML, or an RDF graph) and an update reports success, only when the server answered success in full. Any other status, an unusable or missing content type, an undecodable or truncated body, or a connection that fails at any byte raises an error to the caller. After a failure the same server object serves the next call normally.",
 ["fault_sequences", "inputs", "histories"],
 "Every status, content type and body, chunking and encoding of the response, and every byte at which the connection can be refused, reset, cut or stalled, in any sequence of calls.",
 "Two recorded responses are replayed: one JSON success and one error status.",
 ["src/pymantic/sparql.py"],
 [("status check", "sparql.py _SelectOrUpdate.execute"), ("content-type dispatch", "sparql.py _Select.execute")],
 ["return value or exception of query and update"])

prop("C14", "Each SPARQL call sends its own request faithfully and at most once",
 "Each query or update call causes at most one request to be acted on by the server, and none is repeated behind the caller's back even when the connection fails after it was sent. That request carries exactly the caller's text, default graphs and named graphs, in the protocol form the server object was configured for (GET, form POST or direct POST) with the matching content type and accepted formats. Calls made at the same time by several threads on one server object never exchange or mix text, graphs, formats or answers.",
 ["schedules", "fault_sequences", "configurations", "inputs"],
 "Every interleaving of concurrent calls, every failure point of the connection, every configuration and every Unicode query text.",
 "One form-POST query is replayed; the request body is not compared, no update, GET or direct POST is ever sent, and nothing runs concurrently or fails.",
 ["src/pymantic/sparql.py"],
 [("per-call parameters and headers", "sparql.py _SelectOrUpdate.__init__/execute"), ("protocol form", "sparql.py _Select / _Update"),
  ("one request per execute", "sparql.py _SelectOrUpdate.execute")],
 ["requests received by the simulated server", "answers per caller"])

prop("C15", "Graph-store operations act once, on the right graph, and report truthfully",
 "An acknowledged put, post, delete or patch on a SPARQL graph store has been applied exactly once to exactly the named graph with exactly the given triples, and an acknowledged get returns exactly the triples the named graph held at the server; other graphs are untouched. Error statuses, unknown formats and network failures at any point raise an error, after which the graph is in its old or its new state and nothing else. This holds for both ways of addressing graphs and for clients working concurrently.",
 ["fault_sequences", "schedules", "histories", "configurations"],
 "Every history of operations by several clients on several graphs, every failure before, during or after the server acts, every status, and every graph name and Unicode content.",
 "No test uses the graph-store classes at all.",
 ["src/pymantic/sparql.py"],
 [("graph addressing", "sparql.py UpdateableGraphStore.request_url"), ("status checks per method", "sparql.py UpdateableGraphStore.get/put/post/delete, PatchableGraphStore.patch")],
 ["server state", "return value or exception", "graphs returned by get"])

prop("C16", "A changeset turns the old graph into the new one, and only that",
 "For any two graphs, the changeset between them names the subject of change, lists exactly the removals and additions that distinguish them (every one a complete statement of its own), and applying it to the old graph - directly, or by patching a graph store over a faulty network - yields the new graph. Computing it changes neither graph, and does not depend on the clock except for the recorded creation time.",
 ["inputs", "fault_sequences", "configurations"],
 "Every pair of graphs, every sequence of successive patches with lost acknowledgements and retries, and every clock reading including jumps backwards.",
 "No test computes a difference or a changeset.",
 ["src/pymantic/sparql.py"],
 [("set differences", "sparql.py differences"), ("reified statements", "sparql.py changeset, reify"), ("patch", "sparql.py PatchableGraphStore.patch")],
 ["changeset graph", "server state after patch"])

prop("C17", "Prefix and term maps answer exactly from their own bindings",
 "For any history of binding, rebinding, removing, defaulting and importing (with or without override) prefixes and terms, by any number of clients over environments and the profiles and maps made from them, each map, also when several threads ask at once, resolves and shrinks exactly by the bindings its own history left: the latest binding counts, an import changes exactly the bindings concerned, and what is made from an environment starts as a replica of it and afterwards neither sees nor causes changes in it or its siblings. Shrinking uses the longest matching namespace, and resolving the result with the same bindings gives back the IRI; an unknown prefix is an error that changes nothing, and an unbracketed registered URI scheme is never taken for a prefix.",
 ["histories", "schedules", "inputs", "configurations"],
 "Every history of edits over environments, profiles, prefix maps and term maps made from one another, every interleaving of readers, every IRI and CURIE (empty references, nested namespaces, the default prefix, brackets).",
 "The tests resolve a dozen CURIEs against a fixed map and shrink one IRI; no test edits, imports, copies or shares a profile or map.",
 ["src/pymantic/primitives.py"],
 [("CURIE syntax", "primitives.py parse_curie / to_curie"), ("maps", "primitives.py PrefixMap, TermMap"),
  ("profiles and environments", "primitives.py Profile, RDFEnvironment.createProfile / createPrefixMap / createTermMap")],
 ["PrefixMap.resolve", "PrefixMap.shrink", "TermMap.resolve", "TermMap.shrink", "Profile.resolve", "Profile.importProfile"])

prop("C18", "IRI normalization is idempotent and reversible",
 "Normalizing an IRI twice is the same as once, and quoting a normalized IRI gives an equivalent URI that normalizes back to it.",
 ["inputs"], "Every IRI.", "The tests check four IRIs.",
 ["src/pymantic/util.py"], [("normalize_iri / quote_normalized_iri", "util.py")], ["normalize_iri", "quote_normalized_iri"])

prop("C19", "The Turtle parser accepts exactly Turtle and gives it the standard meaning",
 "Every document of the W3C Turtle grammar parses to the graph the specification assigns to it, and every other text is rejected.",
 ["inputs"], "Every text.", "The W3C suite samples some 300 documents.",
 ["src/pymantic/parsers/lark/turtle.py"], [("grammar and transformer", "parsers/lark/turtle.py")], ["turtle_parser.parse"])

prop("C20", "Separate stores never affect one another",
 "Threads that each work on graphs, datasets and resources of their own - adding, removing, importing, merging, reading, assigning through resource classes, classifying, parsing, serializing - get in every interleaving exactly the answers, and end with exactly the contents, that the same work gives alone in a process of its own. This holds although the stores hold equal terms, share blank nodes, have equal names or sizes, and are discarded and replaced by new ones.",
 ["schedules", "histories", "inputs"],
 "Every interleaving, at any point inside the library, of any scripts of operations by several threads on stores of their own.",
 "No test uses two threads; a test sees one store at a time and would not notice state kept per class, per module or per memory address.",
 ["src/pymantic/primitives.py", "src/pymantic/rdf.py", "src/pymantic/serializers.py", "src/pymantic/parsers/base.py"],
 [("per-instance indexes and graphs", "primitives.py Graph, Dataset"), ("class registry shared by all graphs", "rdf.py MetaResource, Resource.classify"),
  ("per-call state of serializers and parsers", "serializers.py serialize_turtle; parsers/base.py BaseParser")],
 ["every public operation's answer", "contents of every store"])

prop("C21", "Data survives any number of save, crash and reload cycles",
 "A client that keeps a graph or dataset on disk - edits it, saves it as N-Triples, N-Quads or (as far as C09 goes) Turtle, crashes at any point, reloads the newest save that was completed, and goes on - holds after every reload exactly the statements of that save, up to renaming of blank nodes, however many cycles there have been and whichever formats alternate. Nothing drifts: no literal, language, datatype, IRI (beyond the one-time percent-encoding of characters a URI cannot contain, in N-Triples and N-Quads), list or blank node is changed, merged, split, lost or duplicated by going round again, loading two saves into one store unites them with their blank nodes kept apart, and a save that failed is always reported to have failed.",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "Every history of edits, saves, disk faults, crashes and reloads, every byte at which a disk can fail or a crash can fall, and all terms.",
 "The tests parse or serialize once; none writes data, reads it back, edits it and writes it again, and none fails a write.",
 ["src/pymantic/serializers.py", "src/pymantic/parsers/lark/ntriples.py", "src/pymantic/parsers/lark/nquads.py", "src/pymantic/parsers/lark/turtle.py", "src/pymantic/primitives.py"],
 [("writers", "serializers.py serialize_ntriples / serialize_nquads / serialize_turtle"), ("readers", "parsers/lark/*.py"), ("store", "primitives.py Graph, Dataset")],
 ["contents of the store after a reload", "what the disk holds after a crash", "exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
