import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=(),state=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
MX='xigt/mixins.py';MO='xigt/model.py';MD='xigt/metadata.py';RF='xigt/ref.py';XP='xigt/xigtpath.py';QY='xigt/query.py'
XX='xigt/codecs/xigtxml.py';XJ='xigt/codecs/xigtjson.py'
p('C01','The id index of every container mirrors its contents',
 "After any sequence of append, insert, extend, +=, item assignment, remove, del, pop, clear, index refresh and whole-contents assignment on a corpus, IGT, tier, metadata or meta object, looking up an id yields exactly the contained object that carries it, and the id of an object that is not (or no longer) contained is not found (the default from get, KeyError from indexing). Lookup by an integer, a slice, or a numeric string that is not an id selects by list position. This assumes that ids are not reassigned on objects while they are contained, except that an index refresh must recover from that too.",
 ['histories','inputs'],"every finite history of container operations, every member id (including None), every lookup key",
 "Tests run a handful of short fixed histories (append, then a lookup); the histories and the failing operations in them are unbounded.",
 [MX,MO,MD],[('index update in each mutator',MX+':XigtContainerMixin.append/insert/extend/__iadd__/__setitem__/__delitem__/remove/pop/clear'),('lookup',MX+':XigtContainerMixin.__getitem__/get'),('whole-contents setters',MO+': igts, tiers, items; '+MD+': metas, children, metadata')],
 ['container[id]','container.get(id)'],[('id index','maps each member id to the member',MX+':XigtContainerMixin')])
p('C02','A rejected insertion changes nothing',
 "Each kind of container accepts only its own kind of member (corpora hold IGTs, IGTs hold tiers, tiers hold items, metadata holds metas, metas and meta-children hold meta-children, and the metadata list of an object holds metadata), and never holds two members with the same non-None id. An append, insert or item assignment that violates this raises an error (a structure error for the wrong kind) and leaves the contents, the id lookup and the parent of the rejected object as they were.",
 ['inputs','histories'],"every container class, every insertion path, every object of the right or wrong kind, in every reachable container state",
 "Tests try one wrong object on one path and do not look at the state after the rejection.",
 [MX,MO,MD],[('type check and duplicate check before any update',MX+':XigtContainerMixin._assert_type, _create_id_mapping and their callers'),('member kind of each class','__init__ of XigtCorpus, Igt, Tier, Metadata, Meta, MetaChild, XigtMetadataMixin')],
 ['exceptions of append/insert/[]=','contents after the exception'])
p('C03','Parent links are set on every insertion path',
 "An object inserted into a container by append, insert, extend, +=, item assignment, the constructor, or whole-contents assignment has that container (for metadata: the object that owns the metadata list) as its parent, so that igt.corpus, tier.igt, tier.corpus, item.tier, item.igt and item.corpus give the enclosing objects. On a detached object these give None and do not raise. Operations that remove or look up objects never change the parent of other objects.",
 ['histories','inputs'],"every insertion path of every container class and every nesting depth",
 "Tests check the links after construction of one corpus; each insertion path has its own code.",
 [MX,MO,MD],[('parent assignment',MX+':XigtContainerMixin.append/insert/__setitem__'),('link accessors',MO+':Igt.corpus, Tier.igt/corpus, Item.tier/igt/corpus')],
 ['obj.corpus','obj.igt','obj.tier'])
p('C04','Equality compares everything; != is its negation',
 "Two corpora, IGTs, tiers, items, metadata, meta or meta-child objects are equal exactly when they agree on id, type, attributes and namespace, on the text (items, metas, meta-children) and name (meta-children), on their metadata (corpora, IGTs, tiers), and pairwise on their members in order. Comparison with an unrelated object is False and does not raise, and a != b is always the negation of a == b.",
 ['inputs'],"all pairs of model objects, and a model object with any other object",
 "Tests compare a few small objects that differ in one field; an omitted field or an operator inherited from list is invisible to them.",
 [MX,MO,MD],[('__eq__ of each class and mixin',MX+', '+MO+', '+MD),('__ne__',MX+':XigtContainerMixin.__ne__')],['==','!='])
p('C05','Ids and meta-child names are validated on every assignment',
 "Assigning an id to any model object, through a constructor or the attribute, stores the value if it is None or begins with an id token (a letter followed by letters, digits, '-', '.', '_'), and otherwise raises ValueError and keeps the previous id. A meta-child can only be constructed with a name that is an XML name without a colon; otherwise ValueError.",
 ['inputs'],"all strings, all model classes, constructor and assignment",
 "Tests try a few ids; the accepted language is infinite.",
 [MX,RF,MD],[('id property',MX+':XigtAttributeMixin.id'),('id grammar',RF+':id_re'),('name grammar',MD+':name_re')],['obj.id = x','constructors'])
p('C06','Attribute and namespace lookup follows the parent chain',
 "Looking up an attribute returns the object's own value if it has one; with inheritance on, otherwise the value of the nearest enclosing object that has it; otherwise the default. A key may be given plainly, with a prefix, in {uri}name form, or with a namespace argument that is a prefix or a URI, and all forms of the same name find the same attribute, own or inherited. The prefix map of an object without its own is that of its nearest enclosing object with one, and empty if there is none; maps and attribute dictionaries passed in are copied.",
 ['inputs','configurations'],"every nesting of objects with or without own prefix maps, every key form, with and without inheritance",
 "Tests look up plain keys on one or two levels.",
 [MX],[('get_attribute',MX+':XigtAttributeMixin.get_attribute'),('nsmap property',MX+':XigtAttributeMixin.nsmap')],['get_attribute()','nsmap'])
p('C07','Refreshing the indices of an IGT reflects its current contents',
 "After an index refresh of an IGT, item lookup finds exactly the items with ids that are currently in its tiers (also after removals), and the cached referents and referrers are those computed from the reference attributes that each tier and item allows and currently has; objects without an id are not indexed and never reported as duplicates. Lookup of any object by id prefers tiers over items, and construction ends with a refresh.",
 ['histories','inputs'],"every history of edits between refreshes, every combination of the refresh flags",
 "Tests refresh a fresh IGT; stale entries only appear after removals.",
 [MO],[('refresh_indices',MO+':Igt.refresh_indices'),('lookups',MO+':Igt.get_item/get_any')],['igt.get_item','igt.get_any','igt.referents','igt.referrers'],
 [('item and reference caches','derived from the tiers and items',MO+':Igt')])
p('C08','Referents and referrers are computed from the same references',
 "The referents of an object are, for each requested (or allowed) reference attribute, the ids in its reference expression in order, and empty if it has none. The referrers of an object are, for each attribute, the ids of the objects of the same level (tiers for a tier, items of all tiers for an item) whose expression contains its id, in document order. An unknown id raises a lookup error, and dereferencing returns the objects denoted by those ids.",
 ['inputs'],"all IGTs, ids, reference attributes and reference expressions",
 "Tests query one small IGT.",
 [RF,MO,MX],[('referents, referrers, dereference, dereference_all',RF),('wrappers',MO+':Igt.referents/referrers; '+MX+':XigtReferenceAttributeMixin')],['ref.referents','ref.referrers','ref.dereference'])
p('C09','Item values follow text, then content, then segmentation',
 "The value of an item is its own text if it has one (even if empty), otherwise the resolution of its content expression, otherwise of its segmentation expression, otherwise None. Resolving an expression joins the selected values or character spans of the referred items in order, with ',' as a space and '+' as nothing between them and a None value as empty text; a missing tier, item or enclosing object raises a structure error.",
 ['inputs'],"all items, texts, reference expressions, spans (negative, overlapping, out of range) and attribute combinations",
 "Tests resolve a few expressions on one corpus.",
 [MO,RF],[('value, resolve_ref, span',MO+':Item'),('resolve',RF+':resolve')],['item.value()','ref.resolve'])
p('C10','All reference-expression operations agree on the grammar',
 "Id validation, id listing, selection, expansion, compression and resolution recognise the same id tokens and span syntax, with an id starting with an ASCII letter. Listing ids gives every id of the expression in order; selections and spans keep all ids, ranges and (unless asked not to) delimiters in order; expanding turns each range into one selection per span, and compressing groups adjacent selections of the same id.",
 ['inputs'],"all strings used as reference expressions",
 "Tests and doctests use a dozen expressions; a one-character difference between the patterns only shows on unusual ids or spans.",
 [RF,MX,'xigt/scripts/xigt_validate.py'],[('patterns',RF+':id_re, reflist_re, robust_ref_re, selection_re, span_re, algnexpr_re, sel_re'),('string operations',RF+':expand, compress, selections, spans, ids')],['ref.ids','ref.expand','ref.compress','ref.selections','ref.spans'])
p('C11','Loading modes deliver every IGT exactly once per iteration',
 "Iterating over a corpus yields its IGTs in order with the corpus as parent, in every loading mode. In full mode they are all loaded at construction; in incremental mode each is loaded when reached and kept, so that later (or interleaved, or interrupted and restarted) iterations still yield all of them; in transient mode each is yielded once and none is kept. A corpus given no IGTs yields nothing in any mode.",
 ['histories','configurations'],"every mode, every pattern of partial, repeated and interleaved iteration, any iterable of IGTs",
 "Tests iterate once from start to end.",
 [MO],[('__init__ and __iter__',MO+':XigtCorpus'),('mode handling of the codecs',XX+':load/default_decode; '+XJ+':load/decode')],['iter(corpus)','corpus.igts','len(corpus)'])
p('C12','Sorting tiers by reference permutes them and terminates',
 "Sorting the tiers of an IGT keeps exactly the same tiers, places each tier after the tier it refers to through the first requested attribute it has (grouped by the order of the requested attributes, otherwise by original position), and terminates on every reference graph, including self-references, cycles and references to tiers that do not exist.",
 ['inputs'],"all tier reference graphs and attribute priorities",
 "Tests sort acyclic three-tier IGTs.",
 [MO],[('sort_tiers',MO+':Igt.sort_tiers')],['igt.sort_tiers()'])
p('C13','Ancestor and descendant traversal is complete and terminates',
 "Ancestors of a tier or item follow, from tier to tier, the first of the requested reference attributes that the tier has, reporting the referring tier, the attribute, the referred tier and those of its items that the current items refer to. Descendants follow the referrers in the same way, breadth first, by the first attribute that has any (or all of them, if asked). Both stop on cyclic references.",
 ['inputs'],"all reference graphs, start objects, attribute lists",
 "Tests walk one acyclic corpus, and the doctests of these functions do not pass.",
 [QY],[('ancestors, descendants',QY)],['query.ancestors','query.descendants'])
p('C14','XigtPath steps select exactly what the path denotes',
 "find returns the first result of findall, or None; findall and iterfind give the same results in order. Paths starting with / are evaluated from the corpus; each step maps every context object in turn: a name selects contained objects of that kind or metadata or meta-children (respecting a namespace prefix), * all of them, // the object itself and all nested objects of that name, '..' the parent, '.' the object, and (a|b) the union per object. Paths that end in / are rejected.",
 ['inputs'],"all well-formed paths and context objects",
 "Tests evaluate a fixed list of paths on one corpus.",
 [XP],[('iterfind and the step functions',XP+':_expr, _disjunction, _step, _find_child, _find_descendant_or_self, _get_corpus'),('tokenizer',XP+':xp_tokenizer_re')],['xigtpath.find','xigtpath.findall','xigtpath.iterfind'])
p('C15','XigtPath attributes, functions and predicates',
 "@name yields the object's id, type, name or attribute of that name and nothing if it has none, and @* all attributes. text(), value(), referent() and referrer() yield the text, the value, and the referred or referring objects for the given or all reference attributes. A predicate [p] keeps the objects for which p yields something, [p=\"v\"] those for which some result equals v, and [p!=\"v\"] those for which none does; names that merely begin with a function name are names.",
 ['inputs'],"all objects, attribute names, values and predicates",
 "Tests use a few attributes and equality predicates.",
 [XP],[('_find_attr, _function, _find_referent, _find_referrer, _make_predicate_test',XP)],['xigtpath.findall'])
p('C16','XigtXML writing and reading agree on every field',
 "For every kind of object, writing emits and reading restores its id, type, every attribute (namespaced ones under the prefix of their URI), its namespace and new prefix declarations, its text, its metadata and its members in order, each in the same place. Nothing that the reader stores is dropped or renamed by the writer, and nothing that the writer emits is dropped or renamed by the reader.",
 ['inputs'],"all documents and all model objects at every level",
 "Round-trip tests use documents that set few of the fields at each level.",
 [XX],[('_build_* functions',XX),('default_decode_* functions',XX),('function table',XX+': decode_*/encode_* names')],['xigtxml.loads','xigtxml.dumps'])
p('C17','XigtJSON encoding and decoding are inverse field by field',
 "For every kind of object, encoding emits and decoding restores its id, type, attributes, namespace, prefix map, text (also when empty), name, metadata and members in order, at the same level. A namespaced attribute is written under the prefix of its URI and read back to the same URI; an object that declares no prefixes of its own inherits those of its parent again after decoding.",
 ['inputs'],"all model objects at every level",
 "Round-trip tests use objects that set few of the fields at each level.",
 [XJ],[('encode_* and _make_obj',XJ),('decode_* and active_namespaces',XJ)],['xigtjson.loads','xigtjson.dumps'])
p('C18','Pretty-printing XML only adds whitespace around elements',
 "Indenting output only ever replaces text or tails that are absent or consist of whitespace, never the text of an element without children, and is skipped entirely if no indentation is requested. Reading drops text of metas and meta-children only if it is whitespace.",
 ['inputs'],"all element trees and indentation settings",
 "Tests look at the default indentation of small documents.",
 [XX],[('_indent',XX),('default_decode_meta, default_decode_metachild',XX)],['xigtxml.dumps(indent=...)'])
p('C19','Serializers reject non-corpora and encode before writing',
 "dump and dumps of both codecs raise an error for anything that is not a corpus before anything is written or opened, and dump only opens or writes to its destination after the corpus has been encoded completely, so a corpus that cannot be encoded leaves an existing file as it was. load accepts a path or an open file, and loads a string.",
 ['inputs','fault_sequences'],"all corpora and destinations, including corpora whose encoding raises",
 "Tests dump valid corpora to strings.",
 [XX,XJ],[('dump, dumps, load, loads',XX+', '+XJ)],['dump','dumps','load','loads'])
p('C20','xigt sort only permutes, and writes only where it is told to',
 "The sort command reorders IGTs, tiers and items by the keys given for each level, the first key being the most significant and numbers in keys compared as numbers, or tiers by their references; it never adds, drops or changes objects, never fails because values of different keys are of different shapes, and applies each level's sort to that level only. It overwrites the input only with --in-place and otherwise prints the corpus.",
 ['inputs','configurations'],"all corpora, key lists and option combinations",
 "The scripts have no tests.",
 ['xigt/scripts/xigt_sort.py'],[('run, make_sortkey, main','xigt/scripts/xigt_sort.py')],['xigt sort'])
p('C21','xigt partition puts every IGT in exactly one output file',
 "Partitioning writes each IGT of each input to exactly one file, named after its key (or the default key if it has none), in input order, and no output overwrites another, also when different keys give the same file name. It writes only to a directory that it created itself, and exits with an error if the directory already exists or cannot be created.",
 ['inputs'],"all sets of input files and key paths, including missing and colliding keys",
 "The scripts have no tests.",
 ['xigt/scripts/xigt_partition.py'],[('run, index, write, create_outdir, normalize_key','xigt/scripts/xigt_partition.py')],['xigt partition'])
p('C22','xigt validate applies every rule at every level and exits accordingly',
 "Validation checks every IGT, tier and item of every file: presence and uniqueness of ids within their scope, tier types, that reference attributes on items are declared on the tier, that referred tiers and items exist (also when the referred tier is empty), and that spans lie within and do not overlap in the referred items; each violation is reported at its level (MUST as error, SHOULD as warning, MAY as info). A file that cannot be parsed fails. The exit status is 0 exactly if no file has reported records at or above the chosen verbosity.",
 ['inputs'],"all files and all violations in them, at any position",
 "The scripts have no tests.",
 ['xigt/scripts/xigt_validate.py'],[('validate_* functions and rules','xigt/scripts/xigt_validate.py'),('report filtering and run/main','xigt/scripts/xigt_validate.py')],['xigt validate'])
p('C23','xigt query reports exactly the matches of each query',
 "For each file and each action in command-line order, find prints every match, count gives the number of matches, unique the number of distinct matches, and tally the number of matches per result of the subquery, most frequent first. A description applies to the action it follows, and substitutes only {query}, {subquery} and {match}.",
 ['inputs','configurations'],"all corpora, queries and option sequences",
 "The scripts have no tests.",
 ['xigt/scripts/xigt_query.py'],[('make_job, process_agenda, *_pattern, print_results','xigt/scripts/xigt_query.py')],['xigt query'])
p('C24','Every subcommand and format reaches a matching driver',
 "Each subcommand offered on the command line runs the script of that name with the remaining arguments. Each format offered by import and export selects a module that provides the import or export entry point and accepts the arguments it is called with (input, output and the loaded configuration), and each option that a command declares is used by it under the name the parser gives it.",
 ['configurations'],"all subcommands, formats and options",
 "The scripts and the modules that need third-party packages have no tests.",
 ['xigt/main.py','xigt/scripts/xigt_import.py','xigt/scripts/xigt_export.py','xigt/importers/odin.py','xigt/importers/toolbox.py','xigt/exporters/latex.py','xigt/exporters/itsdb.py'],[('cmdmap and main','xigt/main.py'),('run and main of each script','xigt/scripts')],['xigt COMMAND'])
p('C25','LaTeX export escapes all text and aligns rows with tiers',
 "Every item value that the LaTeX exporter writes is escaped so that each special character is typeset literally and cannot run into the following text, before user substitutions are applied, and an empty cell is an empty group. An IGT gives one row per exported tier, with one group per column, translations after them; an IGT with fewer than two exportable tiers gives only a comment.",
 ['inputs'],"all item texts and tier combinations",
 "The exporters have no tests.",
 ['xigt/exporters/latex.py','xigt/exporters/util.py'],[('escape and LATEX_CHARMAP','xigt/exporters/latex.py'),('export_igt','xigt/exporters/latex.py')],['xigt export -f latex'])
p('C26','ODIN import yields valid XML text and keeps each line',
 "The ODIN importer replaces exactly the characters that XML 1.0 forbids with the replacement character and keeps all others, for the text of every line; each block with an id gives one IGT with its document id, line range and line types, one raw item per line in order with the line's remaining attributes, and language metadata (undetermined if absent) with declared namespaces. Input and output must both be files or both directories.",
 ['inputs'],"all ODIN text files and options",
 "The importer needs a third-party module and has no tests.",
 ['xigt/importers/odin.py'],[('make_igt* functions, replace_invalid_xml_chars','xigt/importers/odin.py'),('xigt_import','xigt/importers/odin.py')],['xigt import -f odin'])
p('C27','Toolbox import builds uniquely numbered, consistently aligned tiers',
 "With the default configuration, every tier that is mapped, typed or aligned is consistently named across the default tables. Each imported tier has items numbered consecutively from 1 in token order, refers to the tier it is aligned with exactly if that tier was imported before it, and then every item refers to an item of that tier; the phrase tier joins all tokens with single spaces; records without a primary key are skipped, and a record that cannot be converted is reported and skipped.",
 ['inputs'],"all Toolbox records and configurations",
 "The importer needs a third-party module and has no tests.",
 ['xigt/importers/toolbox.py'],[('default tables','xigt/importers/toolbox.py'),('make_igt, make_all_tiers, make_tier, make_phrase_tier','xigt/importers/toolbox.py')],['xigt import -f toolbox'])
p('C28','No code path uses a name that does not exist',
 "On every path of every function of the package, also those that only run on errors, every name that is read is bound, every attribute of a project module or of a model object's own class that is used exists, and every call of a project function or class passes arguments that it accepts. Helper modules export every name that other modules import from them.",
 ['programs','inputs'],"all paths of all functions in the package",
 "Tests do not reach most error paths, deprecated functions, scripts, importers and exporters.",
 ['xigt'],[('all modules','xigt/**/*.py')],['NameError, AttributeError or TypeError on a rare path'])
p('C29','itsdb export gives one row per IGT with its own id and cells',
 "Export to [incr tsdb()] produces one row per IGT in order, with the id start + position * skip and each configured cell computed by its own expression for that IGT. Without an existing relations file nothing is written; defaults are filled in only where the configuration gives no value.",
 ['inputs','configurations'],"all corpora and configurations",
 "The exporter needs a third-party module and has no tests.",
 ['xigt/exporters/itsdb.py'],[('prepare_config, export_corpus, export_igt, xigt_export','xigt/exporters/itsdb.py')],['xigt export -f itsdb'])
p('C30','Selection and metadata lookup return all matches in order',
 "select yields, in order, exactly the contained objects that have every given attribute value, with a namespace given as a known prefix standing for its URI. Meta lookup returns all metas of the requested type that meet every condition from the object's own metadata, or else, if inheritance is on, those of the nearest enclosing object with any, or else the default.",
 ['inputs'],"all containers and criteria",
 "Tests select on one attribute of one container.",
 [MX,MD],[('select',MX+':XigtContainerMixin.select'),('get_meta',MD+':XigtMetadataMixin.get_meta')],['select()','get_meta()'])
# not claimed
p('C31','XigtXML text survives a round trip character by character',
 "Every text, attribute value and tail that can be represented in XML is restored exactly by reading what was written, for every string and encoding.",
 ['inputs'],"all strings and encodings","Tests round-trip a few ASCII texts.",
 [XX],[('ElementTree serializer and parser','standard library')],['loads(dumps(x))'])
p('C32','LaTeX rows are aligned column by column with the references',
 "In the exported table, an item stands in the column of the items that it is aligned with, for every (ordered) alignment, including one-to-many, many-to-one and unaligned items.",
 ['inputs'],"all alignments between exported tiers","The exporters have no tests.",
 ['xigt/exporters/latex.py'],[('align_tier, merge_columns, add_delayed','xigt/exporters/latex.py')],['xigt export -f latex'])
p('C33','Toolbox morpheme segmentation selects the right characters',
 "The character spans that the Toolbox importer computes for words and morphemes select, in the referred item, the characters of that word or morpheme whenever the segmentation can be reconstructed from the text.",
 ['inputs'],"all token sequences","The importer has no tests.",
 ['xigt/importers/toolbox.py'],[('align_word','xigt/importers/toolbox.py')],['xigt import -f toolbox'])
p('C34','Transient loading keeps memory bounded',
 "Iterating over a file in transient mode uses memory bounded by the largest IGT, independent of the number of IGTs in the file.",
 ['inputs'],"all file sizes","Tests load small documents.",
 [XX,MO],[('iter_elements',XX),('XigtCorpus.__iter__',MO)],['process memory'])
p('C35','The package offers its public names, and its objects print as what they are',
 "The package offers the corpus, IGT, tier, item and metadata classes, the resolve function, the loading-mode and attribute constants and its exception classes, each exception deriving from the package's base error. Printing any object shows its kind, its id (or '--' if it has none), and, depending on the kind, its type, value, name or number of members. The deprecated text of a metadata object still reads and sets its metas, with a deprecation warning.",
 ['programs','inputs'],"all objects, names and import statements",
 "Tests use a few of the names and print no object.",
 ['xigt/__init__.py','xigt/errors.py','xigt/consts.py',MO,MD],[('imports of the package','xigt/__init__.py'),('__repr__ of the model classes',MO),('Metadata.text',MD)],['from xigt import ...','repr(obj)'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
for x in P:
    assert len(x['title'])<=80,x['id']
