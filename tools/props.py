#!/usr/bin/env python3
"""Source of properties.jsonl: python3 tools/props.py > properties.jsonl"""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A search reports exactly the subscribers whose patterns cover the tag",
"For every set of subscriptions and every tag, each bit-prefix engine (list, Patricia trie, splay tree) reports exactly the URIs that own a pattern whose bit prefix is a prefix of the tag identifier, and with them the tag's pure identity. When no pattern covers the tag it reports no URI and an error. The answer does not depend on which engine is used nor on the searches made before.",
["inputs","histories"],"every subscription set (nested, sibling, single, empty), every tag, every sequence of searches on one engine",
"The tests search a handful of hand-built trees for a few tags, once each; matching is a statement over all nestings of prefixes and all search orders, and the splay tree restructures itself on every search.",
["filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/filter_object.go","filtering/engine.go","filtering/subscriptions.go"],
[("per-engine search","List.Search, PatriciaTrieNode.search, SplayTreeNode.splaySearch"),("tree construction","PatriciaTrieNode.build, SplayTreeNode.build, ByteSubscriptions.linkSubset, lcp"),("bit matching","FilterObject.Match, getNextBit")],
["return values of Engine.Search"],
[("splay tree shape","chains of exclusive filters, nested by prefix","SplayTree.root")])
p("C02","Adding and deleting subscriptions at run time keeps matching exact",
"After any sequence of additions, deletions and searches, an engine reports for every tag exactly the URIs of the subscriptions that were added and not deleted since. Deleting a subscription that does not exist, or a pattern under a URI that does not own it, changes nothing.",
["histories"],"every interleaving of add, delete and search from any initial subscription set, down to empty and back",
"Tests of in-place insertion and deletion are few or commented out, start from one fixed tree and look at its shape; node splitting, merging and re-parenting only go wrong for particular sequences.",
["filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go"],
[("node split and merge","PatriciaTrieNode.add, PatriciaTrieNode.delete"),("chain insertion and removal","SplayTreeNode.add, SplayTreeNode.delete"),("list membership","ListFilters.IndexOf")],
["return values of Engine.Search after a history of AddSubscription/DeleteSubscription"])
p("C03","A saved engine restores to one with the same behaviour",
"An engine saved at any point of its life and restored, into a new or an already used engine of the same kind, answers every later search, addition and deletion as the saved one would have. Restoring the data of another kind of engine, or truncated data, returns an error and never silently succeeds.",
["histories","fault_sequences"],"every engine kind, every history before and after the save, every truncation point of the saved bytes, every mismatched kind",
"The tests round-trip one small fixed structure per engine and compare part of it; whether every node shape survives, and behaviour afterwards, is not examined, nor is damaged data.",
["filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/legacy_engine.go"],
[("gob encoding of nodes","MarshalBinary/UnmarshalBinary of each engine and of PatriciaTrieNode, SplayTreeNode")],
["Engine.MarshalBinary, Engine.UnmarshalBinary, then Engine.Search"])
p("C04","The text-matching engine reports exactly the matching subscribers",
"For every set of well-formed patterns and every valid tag, the text-matching engine reports exactly the URIs that own a pattern whose fields, without the filter value, are the leading fields of the tag's pure identity (for the ISO schemes: whose text is a prefix of it), after any sequence of additions and deletions. A tag that has no pure identity is answered with an error and no URI.",
["inputs","histories"],"every pattern set, tag and history of additions and deletions",
"The tests use one pattern set and a few tags; field boundaries (a short serial against a longer one, company prefixes that extend each other) and multi-pattern deletions are not sampled.",
["filtering/legacy_engine.go"],
[("text prefix match","LegacyEngine.Search"),("pattern bookkeeping","LegacyEngine.AddSubscription, DeleteSubscription, stringIndexInSlice")],
["return values of LegacyEngine.Search"])
p("C05","Every valid 96-bit EPC translates to its standard pure identity",
"For every 96-bit SGTIN, SSCC, GRAI and GIAI tag, in every partition, translation yields the pure identity URN with the company prefix and reference padded to their fixed number of digits and the serial unpadded, regardless of the filter value. A tag with a reserved partition, a field that exceeds its digits, an unknown header or a wrong length has no pure identity and yields an error.",
["inputs"],"all 4 schemes x 7 partitions x all field values, and all 96-bit strings",
"Tests translate one or two tags per scheme; the decoder has 28 hand-written bit-shuffling branches, each with its own shifts, so errors hide in bits that sample tags leave zero.",
["tdt/core.go","tdt/epc.go"],
[("bit extraction per partition","Core.buildEPC"),("partition tables","SGTIN96PartitionTable, SSCC96PartitionTable, GRAI96PartitionTable, GIAI96PartitionTable")],
["return value of Core.Translate"])
p("C06","Every ISO tag translates by its AFI and its 6-bit text",
"For a tag whose protocol-control bits announce an ISO application family, translation yields the URN of the standard that the AFI stands for followed by the text of the 6-bit characters of the identifier with the padding characters left out, for identifiers of every length. An unassigned AFI, or protocol-control bits that are not two bytes, yields an error.",
["inputs"],"all AFI values, all protocol-control bytes, identifiers of every length and content",
"Tests cover two AFIs and two identifiers; alignment of 6-bit characters across bytes and the tail that is shorter than a character vary with length and position.",
["tdt/core.go","tdt/iso.go"],
[("AFI table","Core.buildUII"),("6-bit decoding","parse6BitEncodedByteSliceToString"),("toggle bit","Core.Translate")],
["return value of Core.Translate"])
p("C07","EPC encoders emit exactly the fields asked for",
"For all field values in range, the encoders for SGTIN, SSCC, GRAI and GIAI produce the 96 bits that the standard assigns to these fields, and translating them gives the fields back. A field left blank is filled with a value in range so that the tag is still valid, and a value that does not fit its field is rejected with an error instead of yielding a wrong tag.",
["inputs"],"all field values and lengths per scheme and partition, each optional field blank or given",
"Tests encode one or two tags per scheme; widths and paddings depend on the partition, and randomly filled fields need many draws to leave their range.",
["scheme/epc.go","scheme/generate.go"],
[("field encoders","GetFilter, GetCompanyPrefix, GetItemReference, GetSerial, ..."),("assembly","MakeSGTIN96, MakeSSCC96, MakeGRAI96, MakeGIAI96, MakeEPC")],
["bytes returned by Make*96; strings returned by MakeEPC"])
p("C08","A pattern selects exactly the tags that begin with its fields",
"The bit prefix made from a pattern of leading fields is exactly the leading bits of every tag with these fields, and of no other tag of its family (EPC or ISO). The subscription parser and the tag generator produce the same prefix for the same fields, and the pattern text that the generator prints parses back to it.",
["inputs"],"all schemes, all numbers of leading fields, all field values, all pairs of pattern and tag",
"Tests compare single strings per scheme; that two independent implementations of the same tables agree with each other and with the encoders on all values is not sampled.",
["tdt/epc.go","tdt/iso.go","tdt/core.go","scheme/epc.go","scheme/iso.go"],
[("prefix construction","tdt.MakePrefixFilterString, NewPrefixFilter*"),("generator prefix mode","scheme.Make*(pf=true), MakeEPC, MakeISO")],
["strings returned by tdt.MakePrefixFilterString and scheme.MakeEPC/MakeISO"])
p("C09","A malformed pattern is rejected and subscribes to nothing",
"A pattern with an unknown scheme, too many, blank or non-numeric fields, a field out of range, or a company prefix of unsupported length is refused with an error, and a subscription set that contains such patterns behaves in every engine as if they were absent: no tag is ever reported because of them and the other subscriptions are unaffected.",
["inputs"],"every malformed pattern derived from a valid one by damaging structure or fields, mixed with valid patterns",
"Tests feed only well-formed patterns to the engines; a bad pattern that turns into an empty or shifted prefix is silent and matches the wrong tags.",
["tdt/core.go","tdt/epc.go","tdt/iso.go","filtering/subscriptions.go","filtering/legacy_engine.go"],
[("pattern validation","tdt.MakePrefixFilterString, NewPrefixFilter*"),("skip on error","Subscriptions.ToByteSubscriptions")],
["error of tdt.MakePrefixFilterString; return values of Engine.Search"])
p("C10","No tag, however malformed, crashes the middleware or hides a match",
"For arbitrary protocol-control bytes and identifiers of any length, including none, translation and every engine's search return normally, with an error where the tag has no pure identity. The bit-prefix engines still report the subscribers whose prefix covers the identifier, and a later search of a good tag is answered as usual.",
["inputs","histories"],"arbitrary byte strings of length 0..70 as identifier and 0..4 as protocol control, in arbitrary search sequences",
"Tests only use complete 12-byte tags and a few ISO ones; a reader can deliver anything and a panic stops the whole middleware.",
["tdt/core.go","filtering/filter_object.go","filtering/engine.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/list.go","filtering/legacy_engine.go"],
[("bounds checks","FilterObject.Match, getNextBit, Core.buildEPC")],
["return values of Core.Translate and Engine.Search"])
p("C11","ISO encoders produce correct text, check digit, padding and length",
"For all texts in the 6-bit alphabet the ISO 17363 and 17365 encoders emit the text (for containers with the correct ISO 6346 check digit), padded with the standard padding pattern to whole 16-bit words, and protocol-control bits that state that number of words, the ISO toggle and the AFI. Decoding the result returns the text, and characters or serial numbers that cannot be encoded are rejected.",
["inputs"],"all owner codes, equipment categories, serials and texts up to 31 words, every optional field blank or given",
"Tests encode one container and one transport unit; check digit arithmetic and word padding vary over 11 remainders and 8 text-length classes.",
["scheme/iso.go","scheme/generate.go","tdt/iso.go"],
[("check digit","GetISO6346CD"),("padding","Pad6BitEncodingRuneSlice"),("PC bits","MakeISOPC"),("assembly","MakeISO17363, MakeISO17365, MakeISO")],
["bytes returned by MakeISO17363/17365; strings returned by MakeISO; bytes of MakeISOPC"])
p("C12","A filter matches exactly the identifiers that carry its bits at its offset",
"For every bit string with wildcards and every bit offset, the filter built from them matches an identifier exactly when each non-wildcard bit equals the identifier's bit at that position, and an identifier too short to hold a non-wildcard bit does not match. The byte view of the filter (which bytes it has, their value and mask, and whether it is transparent) describes the same bits.",
["inputs"],"bit strings over 0, 1 and wildcard of length 0..520, offsets 0..600, identifiers of length 0..140",
"Tests list a few filters; alignment within bytes, multi-byte carry and wildcard masks combine into far more cases.",
["filtering/filter_object.go"],
[("filter construction","NewFilter, makeFilter"),("match","FilterObject.Match"),("byte view","GetByteAt, HasByteAt, IsTransparent")],
["return values of NewFilter, Match, GetByteAt, HasByteAt, IsTransparent"])
p("C13","A composed filter with its children is equivalent to the original filters",
"For every group of overlapping filters that can be composed, an identifier matches an original filter exactly when it matches both the composite filter and the child kept for that original, and the composite matches every identifier that any of the originals matches.",
["inputs"],"groups of 1..12 filters of equal or different lengths and byte offsets with a common byte range, identifiers near and far from them",
"Tests compare the composite string for two fixed groups; that the split loses no bit and adds none is a statement about all groups and identifiers.",
["filtering/composition.go","filtering/filter_object.go"],
[("common range, disjunction and exclusive masks","NewComposition"),("wildcards","processWildcard")],
["NewComposition result, FilterObject.Match"])
p("C14","Subscription sets survive loading, copying and encoding unchanged",
"Loading a subscription file yields exactly the patterns of each line that starts with an HTTP URI, in order and under the lower-cased URI, and nothing from other lines. A copy of a subscription set is equal and independent of the original, and encoding and decoding a set returns an equal set, while truncated data is refused with an error.",
["inputs"],"generated CSV files (quoting, comments, other cells, repeated URIs) and subscription sets",
"Tests load one sample file and clone one set; independence of copies and the treatment of odd lines are not sampled.",
["filtering/subscriptions.go"],
[("CSV reader","LoadSubscriptionsFromCSVFile"),("copy","Subscriptions.Clone"),("gob","Subscriptions.MarshalBinary, UnmarshalBinary")],
["returned Subscriptions"])
p("C15","Converting subscriptions to prefixes loses nothing and shares nothing",
"Converting a subscription set yields one entry per distinct prefix with its owner, for any spelling of the patterns in upper or lower case, and a converted set, nested or flat, is unchanged by encoding and decoding, while truncated data is refused with an error. Building, using, changing or deleting from an engine never alters the caller's subscription sets, and changing these afterwards never alters the engine.",
["inputs","histories"],"every subscription set, engine and sequence of operations, with the caller mutating its own data in between",
"Tests compare single results and never look at the inputs afterwards.",
["filtering/subscriptions.go","filtering/legacy_engine.go","filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go"],
[("conversion","Subscriptions.ToByteSubscriptions"),("gob","PartialSubscription.MarshalBinary, UnmarshalBinary"),("copy on construction","NewLegacyEngine, AddSubscription")],
["ByteSubscriptions, Subscriptions after engine calls, Engine.Search"])
p("C16","The engine manager always answers like any engine and selects as announced",
"Once the manager has become active it answers every search exactly as the reference for its subscriptions, whatever the order in which the engines finish generating. It is active as soon as the first engine is ready; before any throughput is known the engine of highest deployment priority among the ready ones is selected, afterwards at each interval the one with the highest reported throughput, and every change is announced to the main channel.",
["schedules","inputs","configurations"],"every order and delay of engine generation, every relation of engine speeds, searches at arbitrary times",
"There is no test of the manager at all; selection depends on timing and ordering of concurrent engines.",
["filtering/engine_factory.go","filtering/engine_generator.go","filtering/engine.go"],
[("selection","EngineFactory.Run"),("state machine per engine","NewEngineGenerator, enterGenerating, enterReady"),("dispatch","EngineFactory.Search")],
["return values of EngineFactory.Search and IsActive; messages on the main channel"],
[("current engine","name of the selected engine","EngineFactory")])
p("C17","Traffic reports count every search and every match exactly once",
"Over any run, the event counts that an engine reports sum up to the number of searches it was given, and its matched counts to the number of those that found a subscriber, also when searches run while a report is being delivered. The reported throughput is the positive, finite number of events per microsecond of search time in the interval.",
["schedules","histories"],"every interleaving of searches with report deliveries, slow receivers, intervals with no or many events",
"There is no test of the accounting; lost or doubled counts need a search that overlaps a report.",
["filtering/engine_generator.go","filtering/engine_factory.go","filtering/engine.go"],
[("interval report","ticker goroutine of NewEngineGenerator"),("per search time","timeTrack, EngineGenerator.Search"),("forwarding","EngineFactory.Run")],
["TrafficStatus and EngineStatus messages"])
p("C18","Each statistics message is stored exactly once with its values",
"Every traffic, throughput and selection message given to the statistics manager leads to exactly one point written to the configured database, with the measurement, engine tag and values of that message, and the matching probability is the percentage of matched among incoming events and is absent when there were none. No point is written twice and none is lost, in order of the messages.",
["inputs","histories"],"every sequence of messages of every type with arbitrary names and counts",
"There is no test of the statistics manager, as it needs a database; batching errors show only over several messages.",
["monitoring/stat_manager.go","monitoring/stat_message.go"],
[("message to point","goroutine of NewStatManager")],
["HTTP writes received by a database endpoint"])
p("C19","The middleware processes every reader message and report, however split",
"Over one reader connection, for any sequence of messages and any segmentation of the byte stream, the middleware acknowledges each keep-alive and reader event with exactly one matching reply carrying its configured message identifier, in order, and passes each tag of each access report through filtering exactly once. Tags that match nothing or are malformed do not stop it. With statistics enabled, the counts, throughputs and selections that its engines report reach the configured database.",
["histories","inputs","schedules"],"message sequences with 0..n tags per report, arbitrary cuts of the TCP stream",
"There is no test of the main program; framing errors show only for particular splits and sequences.",
["cmd/gosstrak-fc/main.go","filtering/engine_factory.go","monitoring/stat_manager.go"],
[("framing","read loop in run()"),("replies","SetReaderConfig, KeepaliveAck"),("report processing","rq goroutine")],
["bytes on the reader connection; traffic points written to the statistics endpoint"])
p("C20","The tag conversion tools reproduce their input faithfully",
"The tag file converter writes a file from which exactly the tags of its CSV input are read back, with the same protocol-control bits and identifiers in the same order, and does not report success when the file cannot be written. The 6-bit converter prints, for every text, six bits per character that decode to that text.",
["inputs"],"generated tag files and texts",
"The tests run one helper on one value each; the tools themselves are never run.",
["cmd/gobtags/main.go","scheme/sixenc2bin/main.go","scheme/generate.go"],
[("load and save","main of gobtags"),("character encoding","sixenc2bin, Sixenc2bin")],
["files and output of the programs"])
p("C21","An engine's dump shows exactly its subscriptions",
"The textual dump of an engine lists every current subscription with its bit prefix (joined along the path to it) and its URI, and no other, at any point of any history of changes and searches. The dump of a prefix set lists every entry with its bits, offset and URI, each under the entry it is nested in.",
["histories","inputs"],"every engine and history of additions, deletions and searches",
"Tests compare the dump of one fixed structure, or none.",
["filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/legacy_engine.go","filtering/subscriptions.go"],
[("printing","Dump and print of each engine and of ByteSubscriptions")],
["string returned by Engine.Dump and ByteSubscriptions.Dump"])
p("C22","The network endpoints mirror every stream byte for byte",
"The management endpoint of the middleware and the event capture tool return on each stream of each SPDY connection exactly the bytes and the headers that were sent on it, each in order, for any number of connections, streams and interleavings, and connections that break, or more connections than can be open at once, do not keep the other ones, or later ones, from being served.",
["schedules","histories","fault_sequences"],"several connections and streams with interleaved chunks and headers, broken and garbage connections in between",
"No test opens a connection.",
["cmd/ale-ec/main.go","cmd/gosstrak-fc/main.go"],
[("accept loop and mirror","main of ale-ec, management goroutine of gosstrak-fc")],
["bytes and headers read back on the streams"])
p("C23","Engines, translators and encoders used in parallel do not disturb each other",
"Engines of any kinds that are generated at the same time from one subscription set, copies, encodings and conversions of that set, and translators, encoders and their printed forms, each used by its own goroutine, give the same answers as when used alone, under every schedule and without data races. The shared subscription set is only read.",
["schedules","histories"],"every combination of engines, translators and encoders running at the same time, each with its own history of additions, deletions, searches, saves and restores",
"No test uses two goroutines; the engine manager generates all engines concurrently from one set, and shared scratch space or caches only fail under particular interleavings.",
["filtering/engine_generator.go","filtering/engine_factory.go","filtering/subscriptions.go","filtering/list.go","filtering/patricia_trie.go","filtering/splay_tree.go","filtering/legacy_engine.go","tdt/core.go","tdt/epc.go","tdt/iso.go","scheme/epc.go","scheme/iso.go"],
[("concurrent generation","EngineGenerator.enterGenerating"),("conversion of the shared set","Subscriptions.ToByteSubscriptions, Subscriptions.Clone"),("package-level tables","AvailableEngines, partition tables")],
["answers of each goroutine; reports of the race detector"])
p("C24","The printed form of a generated tag or prefix is exactly that tag or prefix",
"For every tag that the generator makes, the printed ID line is its protocol-control bits in hexadecimal, a comma and its bits, so that a file of such lines loads as exactly these tags in order, and the printed Go form holds exactly its bytes. The line of a prefix is its pattern, a comma and its bits. Nothing is printed for fields that cannot be encoded.",
["inputs"],"all schemes, field values and numbers of prefix fields, including fields that cannot be encoded",
"No test calls the printing functions.",
["scheme/generate.go"],
[("front ends","MakeEPC, MakeISO"),("printing","PrintID, PrintGoBytes")],
["strings returned by PrintID and PrintGoBytes"])
for x in P: print(json.dumps(x))
