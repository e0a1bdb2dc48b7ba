#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
S = 'distribution/src/jadn/'
CODEC = [S + 'codec/codec.py', S + 'codec/__init__.py', S + 'codec/format_serialize_json.py', S + 'codec/format_validate.py', S + 'transform/transform.py']
TLA = 'model-based verification (TLA+/TLC): '

P = []


def prop(id, title, statement, over, text, why, files, mech, level_note, technique, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=level_note, tech=TLA + technique, na=na))


BOTH = ('TLC checks the bounded model of the specification exhaustively and prints its answer tables, all of which are replayed into the '
        'library; recorded executions over random schemas and values are validated step by step by TLC against the same specification. '
        'Exhaustive only within the bounded schema family and value universe; beyond it, sampled. Trusts TLC, the JSON recorder and the specification.')
REC = ('Recorded executions of the library on generated inputs are validated step by step by TLC against the specification; coverage is by '
       'sampling of generated inputs, decisions are by the specification. Trusts TLC, the recorder and the specification.')

prop('C01', 'Encode accepts exactly the values that conform to the schema type',
     'For every valid schema (including field shortcuts: multiplicity, inline options, enumerations derived from other types, MapOf with enumerated keys, key/link), every type defined in it (and every '
     'bare primitive type) and every Python value, encode succeeds if and only if the value is an instance of that type: right base type (bool is not an integer), size, range, pattern, semantic format, field presence '
     'and multiplicity, uniqueness, key and value types, tag selection, anyOf/allOf/oneOf. Unstated upper limits are the ones configured in the schema, or in the config argument given instead of it. A non-conforming value is refused with an exception, never encoded. Acceptance does not depend on the verbose_rec/verbose_str mode.',
     ['inputs', 'configurations'], 'all valid schemas, all defined types and bare primitives, all values, all four modes',
     'The tests sample a few hand-written schemas per base type and a handful of bad values; acceptance is a product of option combinations, nesting and values that no fixed list reaches.',
     CODEC, [('type dispatch and constraint checks', 'codec/codec.py _encode_*, _check_*'), ('extensions unfolded when the codec is created', 'codec/__init__.py Codec.set_mode/__init__ -> transform.unfold_extensions'), ('format validators', 'codec/format_validate.py')],
     BOTH, 'bounded exhaustive model with table replay, plus trace validation of random sessions')
prop('C02', 'Decode accepts exactly the valid messages and returns the value they denote',
     'For every valid schema, defined type, mode and JSON-like message value, decode succeeds only if the message is a serialization (in the current mode) of an instance of the type, and then returns that instance; all the '
     'constraints enforced by encode are enforced by decode. A message of the wrong shape, with unknown, missing or surplus fields, out-of-range or ill-formatted content is refused with an exception. '
     'Integer keys may be spelled as decimal text since JSON object keys are strings.',
     ['inputs', 'configurations'], 'all valid schemas, types, modes and message values, including corrupted ones',
     'The tests decode a few messages per type; rejection of the unbounded space of near-valid messages in every mode is not sampled by them.',
     CODEC, [('type dispatch and constraint checks', 'codec/codec.py _decode_*, _check_*'), ('format parsing', 'codec/format_serialize_json.py')],
     BOTH, 'bounded exhaustive model with table replay, plus trace validation of random sessions')
prop('C03', 'Decode inverts encode in every mode, also through JSON text',
     'For every valid schema, type, mode and conforming value, encode yields a value that json.dumps can serialize, and decoding it with the same codec, either directly or after json.dumps and json.loads, returns a value equal to (and '
     'of the same Python types as) the original. Excepted are trailing nulls of Array values, untagged unions in which several alternatives could have produced the message, and value pairs whose serializations coincide.',
     ['inputs', 'configurations'], 'all valid schemas, types, modes, conforming values',
     'Tests round-trip a handful of values and mostly without JSON text in between, so integer-keyed maps and mode/id combinations go unseen.',
     CODEC, [('paired encode/decode functions', 'codec/codec.py enctab'), ('paired format conversions', 'codec/format_serialize_json.py FORMAT_CONVERT_*'), ('integer keys read from text', 'codec/codec.py _check_key/_decode_map_of')],
     BOTH, 'bounded exhaustive model with table replay, plus trace validation of recorded round trips')
prop('C04', 'The serialized form is the one the schema and mode prescribe',
     'For every conforming value the message encode returns is determined by the schema and the mode alone: Records are arrays with absent fields null and trailing nulls dropped, or objects with verbose_rec; Map, Choice and '
     'verbose Record keys and Enumerated values are names with verbose_str and ids otherwise or whenever the type has the id option; Binary values and formatted values are in their textual format; everything else is unchanged.',
     ['inputs', 'configurations'], 'all valid schemas, types, modes, conforming values',
     'Tests compare a few messages per mode; which of name/id/position is used depends on type option, mode and nesting context together.',
     CODEC, [('mode dependent symbol table', 'codec/__init__.py set_mode'), ('serializers', 'codec/codec.py _encode_*, codec/format_serialize_json.py')],
     BOTH, 'bounded exhaustive model with table replay, plus trace validation of random sessions')
prop('C05', 'Codec answers depend only on schema, configuration, current mode and arguments',
     'The answer of encode and decode is the same whatever calls, mode changes, failures and other codecs came before, and equals the answer of a codec freshly created for the same schema, configuration and mode. '
     'No call alters its arguments, and creating a codec does not alter the schema. Later modification by the caller of the schema object, or of values it received from or passed to a codec, does not change later answers.',
     ['histories', 'inputs'], 'all sequences of codec creations, mode changes, encode/decode calls (also failing ones) and client-side modifications of shared objects',
     'Each test uses a fresh codec and rarely switches modes in between; leaks through shared or cached state need particular histories.',
     CODEC[:2] + [S + 'transform/transform.py'], [('symbol table rebuilt by set_mode', 'codec/__init__.py set_mode'), ('deep copies of the schema', 'codec/__init__.py, transform.unfold_extensions')],
     'The state machine of the specification remembers schema and mode only. Recorded histories of several interleaved codecs are validated by TLC; each answer is also compared with that of a pristine codec in a pristine process. Histories are sampled.',
     'trace validation of multi-codec histories against the JSystem state machine')
prop('C06', 'check accepts exactly the well-formed schemas',
     'Schema checking succeeds, returning the same schema content, for every schema that follows the JADN rules on types, options allowed or required per base type, fields, field ids, names, multiplicity and configuration limits, and raises for every '
     'schema that breaks one of them. The verdict does not depend on unrelated definitions elsewhere in the schema.',
     ['inputs'], 'all schemas in list form, valid ones and valid ones with any one defect',
     'The tests try about a dozen broken schemas; the rule table has hundreds of base-type/option/field combinations.',
     [S + 'core.py', S + 'definitions.py', S + 'data/jadn_v1.1_schema.json'], [('metaschema validation', 'core.py check, data/jadn_v1.1_schema.json'), ('semantic rules', 'core.py check, check_typeopts')],
     REC, 'specification of well-formedness; bounded option matrices replayed and recorded verdicts validated by TLC')
prop('C07', 'Unfolding extensions preserves meaning and leaves only core definitions',
     'Unfolding a valid schema produces a schema without field shortcuts, with the original definitions otherwise kept, defining for every original type exactly the same set of instances and the same messages; the input is not modified and unfolding again changes nothing. '
     'When only some extensions are selected, those are unfolded (AnonymousType includes Multiplicity; link fields with multiplicity need Link); names containing $ are reserved for generated types.',
     ['inputs', 'configurations'], 'all valid schemas, all sets of extensions',
     'Tests unfold a few one-type schemas; interaction of extensions within one schema and name clashes are not sampled.',
     [S + 'transform/transform.py'], [('unfold passes', 'transform/transform.py unfold_*')],
     REC, 'meaning of original and unfolded schemas compared by TLC under the specification')
prop('C08', 'JIDL text preserves the schema',
     'Writing any valid schema as JIDL and reading it back yields the same schema: types, options, fields, ids, multiplicities, descriptions and package information, however columns are laid out. '
     'This holds for descriptions and labels that are single-line printable text without outer blanks, descriptions not starting with //, item labels without //, labels of id-typed fields without colon, and patterns without quotation marks; blank lines, comment lines, indentation, trailing blanks and the way a multiplicity is written ([n] or [n..n], optional or [0..1]) do not matter.',
     ['inputs', 'configurations'], 'all valid schemas, all column layouts',
     'Tests round-trip one quick-start schema; option syntax, quoting and layout interact.',
     [S + 'convert/jidl.py', S + 'utils.py', S + 'definitions.py'], [('writer and parser', 'convert/jidl.py'), ('type strings', 'utils.py jadn2typestr/typestr2jadn')],
     REC, 'schema equality defined in TLA+; recorded write/read cycles validated by TLC')
prop('C09', 'HTML pages preserve the schema',
     'Writing any valid schema as an HTML page and loading that page back yields the same schema: types, options, fields, ids, multiplicities, descriptions and package information, including text containing markup characters. The same restrictions on texts as for JIDL apply.',
     ['inputs'], 'all valid schemas with single-line descriptions',
     'Tests round-trip a sample schema; escaping and option syntax interact.',
     [S + 'convert/html.py', S + 'utils.py'], [('writer and loader', 'convert/html.py')],
     REC, 'schema equality defined in TLA+; recorded write/read cycles validated by TLC')
prop('C10', 'JADN files and strings load back to the schema that was written',
     'Writing a valid schema to a JADN string or file and loading it yields an equal schema, in the compact and the one-definition-per-line layout and for any JSON layout; loading any supported file by its extension gives the schema in it. Files with unknown extensions, text that is not JSON and content that is not a well-formed schema are refused.',
     ['inputs', 'configurations'], 'all valid schemas, layouts, file formats',
     'Tests use the example schemas only.',
     [S + 'core.py', S + 'utils.py'], [('serialization', 'core.py dumps/dump/loads/load/load_any')],
     REC, 'schema equality defined in TLA+; recorded write/read cycles validated by TLC')
prop('C11', 'Dependencies, undefined and unreferenced types and ordering are exact',
     'The dependency graph of a schema lists for every type exactly the types it refers to (in fields, key/value types, derived enumerations and pointers, also inside fields), in the order of its fields; analysis reports exactly the referenced or exported names that are not defined and the '
     'definitions neither referenced nor exported. Sorting lists the names reachable from the roots, each once and no others, depth first in the order of the references, so that each name but a root comes after one that refers to it; without roots the order is unchanged. The arguments are not modified.',
     ['inputs'], 'all schemas',
     'Tests look at one or two example schemas.',
     [S + 'core.py', S + 'utils.py', S + 'transform/transform.py'], [('reference collection', 'utils.py build_deps/topo_sort'), ('analysis', 'core.py analyze')],
     REC, 'dependency relation defined in TLA+, recorded answers validated by TLC')
prop('C12', 'Resolving imports yields the self-contained closure of the package',
     'Resolving a package against a directory of packages yields every definition of the package reachable from its exports plus every definition of other packages reachable through namespaces, transitively and in cycles, renamed consistently (Type$nsid, or Type for the namespaces asked for) so that references still denote the same '
     'definitions, and nothing else; packages that are not found are skipped and undefined references are refused. Package information other than namespaces is kept and the input is not modified, provided all files use a namespace id for the same package.',
     ['inputs', 'configurations'], 'all sets of packages with acyclic or cyclic imports',
     'Tests resolve one example pair and look at the file only superficially.',
     [S + 'transform/resolve.py'], [('merge', 'transform/resolve.py')],
     REC, 'closure defined in TLA+, recorded answers validated by TLC')
prop('C13', 'The JSON Schema translation accepts exactly the messages of the schema',
     'Every valid schema translates to a JSON Schema document, in every enumeration style, whose references resolve and which carries the titles, descriptions and id of the package. Every JSON message, concise or verbose as the document, that the codec decodes for the exported type conforms to the document; '
     'and one that conforms is decoded, for types without Array, Binary, tagid, text formats or number-keyed maps (where the translation is looser by design). Not covered: null members of concise records, patterns with line breaks, texts longer than the default maximum in fields of plain String (which the codec does not limit).',
     ['inputs', 'configurations'], 'all valid schemas, styles and JSON messages',
     'Tests compare generated files with nothing or only check that translation does not fail.',
     [S + 'translate/jsonschema_w.py'], [('translation', 'translate/jsonschema_w.py')],
     REC, 'TLA+ evaluator of the JSON Schema fragment compared with the codec specification by TLC')
prop('C14', 'Canonicalization keeps the schema and gives one form per schema',
     'Canonicalizing a schema yields a schema with the same definitions, options that restate a default dropped and the others in the fixed order and spelling, the same result for schemas that differ only in option order, spelled-out defaults or number spelling, and is idempotent. Package information and the input are unchanged.',
     ['inputs'], 'all valid schemas and their reorderings', 'Tests canonicalize nothing or a sample.',
     [S + 'utils.py', S + 'definitions.py'], [('canonicalize', 'utils.py canonicalize')],
     REC, 'canonical form defined in TLA+, recorded answers validated by TLC')
prop('C15', 'Stripping comments removes or shortens descriptions and nothing else',
     'Stripping comments of a schema, entirely or to a width, changes only descriptions: those longer than the width are cut to it, ending in .. if the width allows (two or more), and removed for width 0; everything else is equal and the input is not changed.',
     ['inputs', 'configurations'], 'all schemas and widths', 'Tests strip one sample.',
     [S + 'transform/transform.py'], [('strip', 'transform/transform.py strip_comments')],
     REC, 'specified in TLA+, recorded answers validated by TLC')
prop('C16', 'Semantic formats accept exactly their grammar and convert exactly',
     'In types, fields, elements and keys, the codec accepts exactly the texts, byte strings or numbers that a format denotes: hostname, email, date, ipv4, ipv6, uri, iri and their references, regex, sized integers, and the texts of hex, base64url, eui, uuid, address, network, tagged UUID and date-time formats; '
     'it converts between value and text as the standard says, in both directions. Undecided: spellings a standard calls optional (listed in DESIGN.md); formats without a validator in the environment must accept what is certainly of the format.',
     ['inputs'], 'all texts, byte strings and numbers for every supported format',
     'Tests use a few examples per format; boundaries (prefix lengths, padding, leading zeros, trailing text) are unbounded.',
     CODEC[2:4], [('validators', 'codec/format_validate.py'), ('conversions', 'codec/format_serialize_json.py')],
     REC, 'format grammars defined in TLA+, recorded answers validated by TLC')
prop('C17', 'Diagrams show exactly the types and references of the schema',
     'A diagram of a schema, in PlantUML or GraphViz, is in the language and has one node per shown type (structured types, and all with attributes on) with name, and by level of detail field names or type strings and fields, and one edge per field whose type, or element type, is shown and per key or value type, with label, multiplicity and dashed line for links as the style says. '
     'No text of the schema is lost or changed or breaks the syntax; schema and style are unchanged.',
     ['inputs', 'configurations'], 'all well-formed schemas with one-line texts, all styles and both languages', 'Tests only run the writer on a sample.',
     [S + 'convert/diagram_w.py', S + 'utils.py'], [('writer', 'convert/diagram_w.py diagram_dumps'), ('type strings', 'utils.py jadn2typestr jadn2fielddef')],
     REC, 'diagram defined in TLA+, recorded output read back and validated by TLC')
prop('C18', 'Markdown tables show every type, option, field and description',
     'The Markdown rendition of a schema gives the package information in the fixed order and, for each type in order, its name, type string and description and a well-formed table with one row per field or item, in order: id, name, type, multiplicity and description, or for types whose names are labels the label before the description. Nothing in the schema is lost or breaks a table; the schema is unchanged.',
     ['inputs', 'configurations'], 'all well-formed schemas with one-line texts', 'Tests only run the writer on a sample.',
     [S + 'convert/markdown.py', S + 'utils.py'], [('writer', 'convert/markdown.py markdown_dumps'), ('cells', 'utils.py jadn2fielddef')],
     REC, 'document defined in TLA+, recorded output read back and validated by TLC')
prop('C19', 'Option lists, option dictionaries and type strings convert without loss',
     'Converting the options of any type or field from list to dictionary form and back, or to the type strings, multiplicity texts and table cells shared by the text formats and back, yields the same options; the strings are the standard JADN notation (Type.ID, (vtype), (ktype, vtype), {min..max}, {pattern="..."}, /format, keywords; Key(), Link(), TagId[]; 1, 0..1, 1..*).',
     ['inputs'], 'all legal option combinations', 'Tests convert a few examples.',
     [S + 'utils.py', S + 'definitions.py'], [('conversions', 'utils.py')],
     REC, 'type string grammar defined in TLA+, recorded answers validated by TLC')
prop('C20', 'Flat and nested dictionaries and definition objects convert without loss',
     'Flattening a nested value gives one entry per leaf under its path; nesting that again and turning dictionaries with keys 0, 1, .. into lists gives the original (keys without separator or colon, nothing empty), for every separator; a key namespace:name counts as its name; merging lets the last win. '
     'A schema turned into definition objects and back is equal, and an object reads, slices, sets and resets its columns by name and position, whatever other objects went through. Arguments are unchanged (except of dlist).',
     ['inputs', 'histories'], 'all nested values, separators, schemas and sequences of operations on definition objects', 'No test uses these helpers.',
     [S + 'utils.py', S + 'definitions.py'], [('dictionaries', 'utils.py flatten/fluff/dlist/dmerge'), ('objects', 'definitions.py BasicDataclass, utils.py object_type_schema/list_type_schema')],
     REC, 'specified in TLA+ with the inverse laws asserted, recorded calls and histories validated by TLC')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                            'observe_at': ['public functions'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
    import registry
    m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 harness/check.py %s quick' % p['id'],
                     'thorough_cmd': 'python3 harness/check.py %s thorough' % p['id'],
                     'technique': p['tech'], 'level': 'model_checking', 'level_note': p['note']} for p in P if p['id'] in registry.CHECKS],
         'not_applicable': [{'property': p['id'], 'reason': p['na'] or 'check not built yet'} for p in P if p['id'] not in registry.CHECKS],
         'notes': 'No hooks are needed: the checks observe the public functions of the library.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 3, p['id']


main()
