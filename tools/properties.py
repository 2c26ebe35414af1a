import json
P=[]
IRI="rdftk_iri/src/iri.rs"; PN="rdftk_iri/src/pname.rs"; MAP="rdftk_iri/src/map.rs"; VOC="rdftk_iri/src/vocab.rs"; ERR="rdftk_iri/src/error.rs"
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}})
p("N01","Names are exactly PN_LOCAL","A string parses as a Name if and only if it matches the PN_LOCAL production (a letter, underscore or digit first; then name characters or dots, never a dot last), and the accepted Name is that string, unaltered. `Name::is_valid_str` says the same.",["inputs"],"every string","Tests sample some forty strings; the grammar has fourteen Unicode ranges whose ends, and whose positions in the string, are each one comparison that can be off by one.",[PN],[("Name::from_str",PN),("character classes of the grammar",PN)],["Name::from_str","Name::is_valid_str","Name::as_ref"])
p("N02","Namespaces are exactly PNAME_NS","A string parses as a Namespace if and only if it is an optional PN_PREFIX (a letter first; then name characters or dots, never a dot last) followed by one ':', and the accepted Namespace is that string, unaltered. `Namespace::is_valid_str` says the same.",["inputs"],"every string","Tests sample a few dozen prefixes; ranges, first/last-character rules and the separator count must hold for all strings.",[PN],[("Namespace::from_str",PN),("character classes of the grammar",PN)],["Namespace::from_str","Namespace::is_valid_str","Namespace::as_ref"])
p("N03","Prefixed local names split at the first ':'","A string parses as a LocalName if and only if the part up to and including its first ':' is a valid Namespace and the rest is a valid Name; those two are then its parts. It is in the default namespace exactly when it starts with ':'.",["inputs"],"every string","Every position of every ':' combined with every character around it; tests take a handful of well-formed names.",[PN],[("LocalName::from_str",PN)],["LocalName::from_str","LocalName::namespace","LocalName::name","LocalName::is_namespace_default"])
p("N04","Text forms of names round-trip","The text of a Name, Namespace, LocalName or PrefixedName (Display, as_ref, conversion to String) is its namespace followed by its name, and parsing that text gives an equal value. The CURIE form of a LocalName is the same text in square brackets, and conversions between the name types lose nothing.",["inputs"],"every valid name, namespace and local name","Tests show a few literals; a round trip must hold for each value the parser accepts, including dots, digits first and non-ASCII names.",[PN],[("Display and From impls",PN),("LocalName::as_curie",PN)],["to_string","String::from","as_curie","PrefixedName::from"])
p("N05","Parse errors name the cause and carry the input","Rejected text gives EmptyString exactly for an empty (part of the) input; a LocalName without ':' or a Namespace not ending in ':' gives MissingSeparator; a Namespace with a second ':' gives TooManySeparators; anything else gives InvalidCharacter. Every variant that carries text carries the offending input.",["inputs"],"every rejected string","The class of an error depends on the whole string; tests assert variants on a few strings and never the carried text over all of them.",[PN,ERR],[("from_str of the three types",PN),("NameParseError",ERR)],["Result of from_str"])
p("N06","Constructors agree with the grammar and their parts","`Namespace::new_named` accepts exactly the valid prefixes, with or without the trailing ':', and gives the same value as the unchecked constructor. A LocalName made from two parts (by construction, by qualifying either part, in the default namespace, or unchecked) has exactly those parts, and a namespace reports its prefix text and whether it is the default.",["inputs"],"every pair of parts","Tests construct a few names; the equivalence of the constructors is a statement about all inputs.",[PN],[("Namespace::new_named/new_unchecked/name_string/qualify, Name::qualify, LocalName::new*",PN)],["constructors and accessors"])
p("N08","Name comparisons follow the text","Two Names (or Namespaces) are equal, ordered and hashed as their texts are; LocalNames are ordered by namespace, then name, and equal exactly when both parts are. A namespace never equals a local name.",["inputs"],"every pair of values","Consistency of equality, order and hash is a relation over all pairs; tests compare a few literals.",[PN],[("derived comparison traits",PN)],["==, cmp, partial_cmp, hash"])
p("I01","IRI text forms and parsing","An Iri shows as its text in angle brackets, and bare in alternate form; parsing accepts exactly the texts the URL parser accepts, with or without a surrounding pair of angle brackets, and gives that URL (or the parser's error). Conversions from and to a Url, by value or reference, preserve it, and editing through the mutable view edits the IRI itself.",["inputs"],"every text and every URL","Tests parse a few literals; bracket handling and agreement with the parser must hold for any text, including lone brackets.",[IRI],[("Display, FromStr, TryFrom, From, AsRef, AsMut",IRI)],["to_string","from_str","conversions"])
p("I02","Component replacement touches one component","Replacing (or emptying, or removing) the fragment, or replacing the path of an IRI yields an IRI which has the new component and is otherwise unchanged, and leaves the receiver as it was.",["inputs"],"every IRI and replacement","Frame conditions (nothing else changes) over all combinations of path, query and fragment; tests use one https example per method.",[IRI],[("with_new_path, with_new_fragment, with_empty_fragment, with_no_fragment",IRI)],["results and receiver"])
p("I03","What counts as a namespace IRI","An IRI looks like a namespace exactly when its fragment is present and empty, or its path ends with '/' and it has no query.",["inputs"],"every IRI (all presence and emptiness combinations of query and fragment)","The predicate is a Boolean combination over three components; tests hold four examples.",[IRI],[("Iri::looks_like_namespace",IRI)],["looks_like_namespace"])
p("I04","Splitting an IRI","An IRI splits exactly when its last component (a non-empty fragment; or, without query and fragment, what follows the last '/' of its path) is a valid Name; the name is that component and the namespace is the IRI without it. Splitting never panics.",["inputs"],"every IRI: hierarchical or opaque, with or without authority, query and fragment","Three doc-test literals; the outcome depends on which components exist and on every character of the last one (two defects here were found by this check).",[IRI],[("Iri::split",IRI)],["split"])
p("I05","namespace() and name() are the parts of split()","For every IRI, namespace() and name() are the first and second part of split(), and None when it does not split.",["inputs"],"every IRI","Tests use literals on which all three trivially agree.",[IRI],[("Iri::namespace, Iri::name",IRI)],["namespace","name","split"])
p("I06","Making a name in a namespace","Adding a name to an IRI which looks like a namespace gives the IRI whose text is the namespace's text followed by the name. An IRI with neither a fragment nor a path ending with '/' (or with a query and no fragment) takes no names.",["inputs"],"every namespace IRI and every ASCII name","Concatenation must hold for any path, authority and query; tests use three literals.",[IRI],[("Iri::make_name",IRI)],["make_name"])
p("I07","make_name and split are inverse","If a namespace IRI takes a name, the result splits into that namespace and that name; if an IRI splits, its parts are a namespace IRI and a name which make the IRI again.",["inputs"],"every namespace IRI and ASCII name; every IRI that splits","The two directions are only as good as the agreement of two functions on all inputs; no test composes them.",[IRI],[("Iri::make_name, Iri::split",IRI)],["make_name","split"])
p("I08","Generated identifiers","A generated IRI has the scheme and server of its base, the path /.well-known/genid/ followed by the 32 lower-case hexadecimal digits of the freshly drawn UUID, and neither query nor fragment. A base which cannot have a path gives an error.",["inputs"],"every base IRI and every drawn UUID","Tests check a prefix of one generated IRI; the digits of any UUID and any base must come out right.",[IRI],[("Iri::genid",IRI)],["genid"])
p("I09","IRI references wrap and show their target","An IriRef made from an Iri or a prefixed name is of that variant, holds exactly that value, and shows as it does, with the same format options.",["inputs"],"every IRI and prefixed name","Tests build two references.",[IRI],[("IriRef",IRI)],["From impls, Display, variant accessors"])
p("I10","IRI comparisons follow the text","Two IRIs are equal, ordered and hashed as their full texts are, and two IRI references compare equal exactly when what they hold does.",["inputs"],"every pair of IRIs","A relation over pairs; untested beyond literals.",[IRI],[("derived comparison traits",IRI)],["==, cmp, hash"])
hist=["histories","inputs"]
p("M01","A prefix map is a bijection","After any history of insertions and removals, a prefix maps to an IRI exactly when that IRI maps back to the prefix, the default prefix included.",hist,"every history and every pair of prefix and IRI","Tests insert distinct pairs; collisions on one side, or both, at any step decide this.",[MAP],[("IriPrefixMap::insert/remove, BiBTreeMap",MAP)],["get_namespace","get_prefix","get_default_namespace"],[{"name":"map","meaning":"prefix <-> IRI","where":MAP}])
p("M02","The last insertion wins","After any history of insertions, a prefix (or IRI) maps to what it was last inserted with, unless a later insertion took that partner away; every other lookup finds nothing.",hist,"every history of insertions, by prefix or as the default","Tests overwrite one key once; aliasing between both sides needs all histories.",[MAP],[("IriPrefixMap::insert, set_default_namespace",MAP)],["get_namespace","get_prefix","get_default_namespace"])
p("M03","Removal removes exactly one mapping","Removing a prefix (or the default prefix, by either method) removes its mapping in both directions and no other; removing an unmapped prefix changes nothing; clearing removes everything; later insertions work as on a new map.",hist,"every history with removals","Tests remove one key and ask for it.",[MAP],[("remove, remove_default_namespace, clear",MAP)],["get_namespace","get_prefix","get_default_namespace"])
p("M04","Expansion","A local name expands exactly when its own prefix is mapped to an IRI which takes names; the result is the name made in that IRI. The default prefix is looked up like any other.",hist,"every map history and every local name","Tests expand a few names in a fixed map.",[MAP,IRI],[("IriPrefixMap::expand",MAP)],["expand"])
p("M05","Compression","An IRI compresses exactly when it splits and its namespace is mapped; the result is its name under that prefix, and expanding it gives the IRI back.",hist,"every map history and every IRI","Tests compress a few IRIs in a fixed map; that expansion inverts compression is untested over histories.",[MAP,IRI],[("IriPrefixMap::compress",MAP)],["compress","expand"])
p("M06","Compression to a reference never loses the IRI","Compressing to a reference gives the prefixed name when there is one, and otherwise the IRI itself, unchanged.",hist,"every map history and every IRI","Tests cover one hit and one miss.",[MAP],[("IriPrefixMap::compress_to_iriref",MAP)],["compress_to_iriref"])
p("M07","Listings agree with lookups","The number of mappings, emptiness, and the listings of mappings, prefixes and IRIs contain each current mapping once and nothing else, after any history.",hist,"every history","Tests count after a few inserts.",[MAP],[("len, is_empty, mappings, prefixes, iris",MAP)],["listings"])
p("M08","The ready-made maps","The default map has exactly rdf, rdfs, xsd and owl, and the common map exactly those with dcterms, skos and void, each mapped to the IRI its specification gives; no other prefix is mapped, and there is no default namespace.",["inputs"],"every prefix","Tests look up the prefixes they expect; that nothing else is mapped, or mapped elsewhere, is a statement about all prefixes.",[MAP,VOC],[("IriPrefixMap::default, common",MAP)],["get_namespace","len"])
p("M09","Builders, copies and equality","Each builder method gives the map its mutating counterpart gives. A clone equals its original, and two maps are equal exactly when they hold the same mappings, whatever history made them.",hist,"every pair of short histories","Equality over histories is not sampled by any test.",[MAP],[("with, with_default, with_vocabulary, PartialEq, Clone",MAP)],["=="])
p("M10","The text of a prefix map","The text of a prefix map lists each mapping once, prefix and IRI, in prefix order, between its fixed first and last line.",hist,"every map of up to one mapping, with any prefix and IRI","One literal example in the documentation.",[MAP],[("Display for IriPrefixMap",MAP)],["to_string"])
p("V01","Published vocabularies","Each vocabulary constant has the prefix and IRI it documents; its prefix is a valid namespace, its IRI a valid namespace IRI, and every name made in it is its IRI followed by the name.",["inputs","configurations"],"each published vocabulary and every ASCII name","Tests look at a few constants and no names made from them (one constant differs from its documentation).",[VOC],[("VOCABULARY_* constants",VOC)],["Vocabulary accessors","make_name"])
p("V02","Vocabulary accessors","A vocabulary made from any valid prefix and IRI gives back that prefix and IRI as text and as typed values, and a description exactly when one was given; adding a description changes nothing else.",["inputs"],"every prefix and IRI","Tests use the published constants.",[VOC],[("Vocabulary",VOC)],["accessors"])
p("S01","Deserialization applies the grammar","A Name, Namespace, LocalName or Iri is read from serialized text exactly when parsing that text accepts it; nothing invalid can enter through serde.",["inputs"],"every serialized text","No test deserializes invalid text (a defect here was found by this check).",[PN,IRI],[("serde derives and their conversions",PN)],["Deserialize"])
p("S02","Serialized values read back equal","Names, namespaces and IRIs are written as their text, local names as their two parts, references and prefixed names with their variant, maps with their mappings; reading what was written gives an equal value.",["inputs"],"every value","Tests round-trip a few JSON literals.",[PN,IRI,MAP],[("serde derives",PN)],["Serialize, Deserialize"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
NOTE={}
man={"version":1,"setup_cmd":"python3 check.py --setup","checks":[],"not_applicable":[],
 "notes":"No hooks in /repo: the checks encode the unmodified public crate. See DESIGN.md."}
import os
na=json.load(open('/verif/tools/not_applicable.json')) if os.path.exists('/verif/tools/not_applicable.json') else []
nas={x['property'] for x in na}
for x in P:
    if x['id'] in nas: continue
    man["checks"].append({"property":x["id"],"quick_cmd":f"python3 check.py {x['id']} --tier quick","thorough_cmd":f"python3 check.py {x['id']} --tier thorough","evidence_file":f"evidence/{x['id']}.json",
     "technique":"bounded symbolic execution of the compiled code (Kani/CBMC, SAT), counterexamples replayed natively",
     "level":"other",
     "level_note":"Every obligation decided by the solver for all inputs within the sizes in the harness names (unwinding assertions on, reachability witnesses required). Trusts Kani/CBMC and the url/bimap models (validated against the real crates); a violation is reported only if it reproduces natively on the real dependencies."})
man["not_applicable"]=na
json.dump(man,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(man,json.load(open('/root/.vp/MANIFEST.schema.json')))
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
