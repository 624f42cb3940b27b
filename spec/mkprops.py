#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the texts live here)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/kiutils/'
ITEMS = S + 'items/'
LEX = {'name': 'S-expression lexer and tree builder', 'where': S + 'utils/sexpr.py: term_regex, parse_sexp'}
DEQ = {'name': 'quote escaping of written texts', 'where': S + 'utils/strings.py: dequote'}
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), claim=None, na=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=mech, observe_at=list(observe), hook_needed=None)), claim, na))


RTWHY = ('The existing tests load a few dozen stored files and compare the re-serialised text with a stored expectation: they sample a handful of '
         'attribute combinations per class and never vary presence, values, texts and list lengths together; the claim is over all of them.')
RTNOTE = ('Every function of the class closure is verified against its contract for all objects of spec/domain.txt, all list lengths and all layout arguments; '
          'obligations are generated from /repo on every run and discharged by z3. Assumes the lexer contract (C12), real arithmetic for numbers, and the '
          'domain preconditions; what the verifier cannot decide falls back to a labelled bounded run on the real code.')
RTTECH = 'contract-based deductive verification: symbolic execution of the real functions, per-class round-trip contracts, z3'


def rt(id, what, cls, files, mech, extra=''):
    prop(id, '%s survive saving and loading' % what,
         'For every well-formed %s object, loading the S-expression it serialises to gives back an object equal to it in every attribute: nothing is lost, invented, reordered '
         'or changed, at any nesting depth, for every combination of set, unset and boundary attribute values and every list length.%s' % (cls, extra),
         ['inputs'], 'all well-formed %s object graphs (every optional attribute present or absent, arbitrary texts and numbers, lists of any length)' % cls,
         RTWHY, files, mech + [LEX, DEQ], ['to_sexpr() text', 'object returned by from_sexpr(parse_sexp(text))'],
         claim=dict(technique=RTTECH, level='proof', level_note=RTNOTE))


rt('C01', 'Board files', 'Board', [S + 'board.py', S + 'footprint.py', ITEMS + 'brditems.py', ITEMS + 'gritems.py', ITEMS + 'zones.py', ITEMS + 'dimensions.py', ITEMS + 'fpitems.py', ITEMS + 'common.py'],
   [{'name': 'Board reader and writer', 'where': S + 'board.py: Board.from_sexpr, Board.to_sexpr'},
    {'name': 'stackup, layers, general, segments, vias, arcs, targets', 'where': ITEMS + 'brditems.py'},
    {'name': 'zones and keepouts', 'where': ITEMS + 'zones.py'}, {'name': 'dimensions', 'where': ITEMS + 'dimensions.py'}, {'name': 'graphic items', 'where': ITEMS + 'gritems.py'}])
rt('C02', 'Footprints', 'Footprint', [S + 'footprint.py', ITEMS + 'fpitems.py', ITEMS + 'zones.py', ITEMS + 'common.py'],
   [{'name': 'Footprint, Pad, Attributes, Model, DrillDefinition readers and writers', 'where': S + 'footprint.py'}, {'name': 'footprint graphic items', 'where': ITEMS + 'fpitems.py'}])
rt('C03', 'Schematics', 'Schematic', [S + 'schematic.py', ITEMS + 'schitems.py', S + 'symbol.py', ITEMS + 'common.py'],
   [{'name': 'Schematic reader and writer', 'where': S + 'schematic.py'}, {'name': 'schematic items, sheets, instances', 'where': ITEMS + 'schitems.py'}])
rt('C04', 'Symbol libraries', 'SymbolLib', [S + 'symbol.py', ITEMS + 'syitems.py', ITEMS + 'common.py'],
   [{'name': 'SymbolLib, Symbol, SymbolPin readers and writers', 'where': S + 'symbol.py'}, {'name': 'symbol graphic items', 'where': ITEMS + 'syitems.py'}])
rt('C05', 'Worksheets', 'WorkSheet', [S + 'wks.py', ITEMS + 'common.py'], [{'name': 'WorkSheet and its items', 'where': S + 'wks.py'}])
rt('C06', 'Design rule files', 'DesignRules', [S + 'dru.py'], [{'name': 'DesignRules, Rule, Constraint', 'where': S + 'dru.py'}])
rt('C07', 'Library tables', 'LibTable', [S + 'libraries.py'], [{'name': 'LibTable, Library', 'where': S + 'libraries.py'}])

prop('C08', 'Written output is one balanced S-expression, whatever the layout',
     'Serialising any well-formed object succeeds and yields text that is exactly one balanced S-expression made of separable tokens, starting with the token of its kind (an attribute block with nothing to say may be empty, a design-rule file is a sequence). '
     'The indentation and newline arguments change white space only: the token tree is the same for all of them.',
     ['inputs', 'configurations'], 'all well-formed objects of all serialisable classes, all indent >= 0, newline and layout flags',
     'Tests serialise with the default layout and compare whole files; no test varies indentation or newline, and no test checks the structure for attribute combinations missing from the sample files.',
     [S + 'board.py', S + 'footprint.py', S + 'schematic.py', S + 'symbol.py', S + 'wks.py', S + 'dru.py', S + 'libraries.py', ITEMS + '*.py'],
     [{'name': 'to_sexpr of every class', 'where': S + '**: to_sexpr'}, DEQ], ['text returned by to_sexpr'],
     claim=dict(technique='contract-based deductive verification: balance, single-list and layout-independence postconditions of every writer, z3', level='proof',
                level_note='Postconditions of to_sexpr of every class, for symbolic indent/newline; nested writers used by contract. ' + RTNOTE))
prop('C09', 'Free text survives and can never break the file structure',
     'Any text a user puts into a free-text attribute (quotes, parentheses, backslashes inside, line breaks, leading or trailing blanks, empty, keyword look-alikes, non-ASCII) comes back unchanged after writing and reading, '
     'and never changes how any other token of the file is read. (Texts that end in a backslash or contain carriage returns are excluded: known finding.)',
     ['inputs'], 'all texts in all free-text attributes of all classes, in every combination with the other attributes',
     'Tests only contain the texts of the sample files; a quoting error shows only for texts containing quotes, parentheses or keywords at that particular attribute.',
     [S + 'utils/strings.py', S + 'utils/sexpr.py', ITEMS + '*.py', S + '*.py'],
     [DEQ, LEX], ['text attribute values after write and read'],
     claim=dict(technique='contract-based deductive verification: per text attribute escape/lex/read postconditions, z3', level='proof',
                level_note='For every free-text attribute of every class: written escaped and quoted, lexed as one token, stored back unchanged. ' + RTNOTE))

prop('C10', 'Readers tolerate reordered, missing and unknown tokens',
     'Every reader finds the tokens of its expression by name: the order of the tokens does not matter (entries that feed the same list keep their relative order), a list token it does not know is ignored and changes nothing, '
     'and a missing token leaves the attributes it carries at their declared default without affecting any other attribute. (Tokens the format requires, and positional entries before the tokens, are presumed in place.)',
     ['inputs'], 'all well-formed expressions of all classes, all permutations of their tokens, any unknown list tokens at any place, any subset of the optional tokens left out',
     'Sample files have their tokens in the order KiCad wrote them, without gaps or unknown tokens; files of other KiCad versions differ in exactly this.',
     [S + '*.py', ITEMS + '*.py'], [{'name': 'reading loop of every reader', 'where': S + '**: from_sexpr'}, {'name': 'which token carries which attributes', 'where': 'spec/tokens.txt'}], ['attributes of the loaded object'],
     claim=dict(technique='contract-based deductive verification: token-loop contracts (per-token frame, commutation, unknown-token and missing-token postconditions), symbolic execution, z3', level='proof',
                level_note='Each reader is run on the symbolic expression of an arbitrary object with every token reversed, dropped or surrounded by arbitrary unknown lists; the read and write sets of the loop body per token are shown to commute, so any permutation follows by induction over adjacent exchanges.'))
prop('C11', 'Input of the wrong kind or size is refused, never half-loaded',
     'Every reader raises an exception for anything that is not an S-expression of its own kind: None, texts, numbers, tuples, mappings, an empty list, a list whose first token belongs to something else '
     '(or is a number or a list), and lists with fewer or more entries than its kind allows. It never returns an object built from foreign input.',
     ['inputs'], 'all values of the wrong type and all lists with any wrong first token, whatever follows, for every reader',
     'Tests only feed well-formed files; no test hands a reader something wrong, and the space of wrong inputs is unbounded.',
     [S + '*.py', ITEMS + '*.py'], [{'name': 'entry guards', 'where': S + '**: from_sexpr (isinstance / exp[0] checks)'}, {'name': 'what is accepted', 'where': 'spec/heads.txt'}], ['exception raised by from_sexpr'],
     claim=dict(technique='contract-based deductive verification: "returns normally only if" postcondition of every reader over symbolic input, z3', level='proof',
                level_note='Each reader is executed symbolically on inputs with an arbitrary first token and an arbitrary number of arbitrary further entries; the obligation is that no normal return is reachable.'))
prop('C12', 'The S-expression parser reconstructs exactly the tree in the text',
     'Parsing a text yields exactly the tree it denotes: every parenthesised list becomes one list with its entries in order, at any nesting depth and length; every quoted text becomes that text with escaped quotes resolved and nothing else changed; '
     'numbers become numbers of that value (whole numbers as int), every other word becomes itself; any white space separates. A text with unbalanced parentheses raises an exception and is never repaired. '
     '(Excluded: more than one top-level list, words that contain quotes, quoted texts that end in a backslash or are directly followed by an opening bracket, whole numbers above 2**53.)',
     ['inputs'], 'all token sequences, all nestings, all texts',
     'Every test goes through the parser but only on KiCad-written sample files; token boundaries, escapes, signs, exponents, deep nesting and unbalanced input are not varied.',
     [S + 'utils/sexpr.py', S + 'utils/strings.py'], [LEX, DEQ], ['tree returned by parse_sexp'],
     claim=dict(technique='contract-based deductive verification: loop invariant of parse_sexp discharged by symbolic execution (z3), lemmas about the real regular expression decided by a priority-automaton procedure', level='proof',
                level_note='Base and step obligations of the token loop for every token kind, for an arbitrary stack and arbitrary continuation; regular-expression lemmas (which group matches, how much is consumed) decided over all texts by automata; escape/unescape shown mutually inverse by transducer composition. Induction over the token sequence is the only meta step.'))
prop('C13', 'Writing changes nothing and always gives the same text',
     'Serialising an object changes neither the object nor anything reachable from it nor any module or class state, and serialising it again, with the same arguments, at any later time gives the identical text.',
     ['inputs', 'histories'], 'all objects of all classes (also partly unset ones), all layout arguments, any number and order of calls',
     'Tests serialise each object once and never look at it again; a writer that sorts, pops, fills in or caches something would pass them all.',
     [S + '*.py', ITEMS + '*.py'], [{'name': 'to_sexpr of every class', 'where': S + '**: to_sexpr'}], ['object attributes before and after to_sexpr', 'repeated to_sexpr texts'],
     claim=dict(technique='contract-based deductive verification: frame condition (assigns nothing) of every writer, symbolic execution with write tracking, z3', level='proof',
                level_note='Frame obligation: every heap write reachable in to_sexpr targets an object allocated in the call. Determinism follows: the writer is a function of the object, no environment, clock, random or global mutable read is reachable (anything unknown to the verifier is undecided, not proved).'))
prop('C14', 'Loaded and created objects are independent of each other and of the input',
     'Loading never changes the parsed tree it is given nor any module or class state; loading the same tree twice gives equal objects; and no two objects, whether loaded, or created with default arguments, share mutable state '
     'with each other or with the parsed tree, so changing one never changes another.',
     ['inputs', 'histories'], 'all trees of all classes, all sequences of loads and creations',
     'Sharing and history effects only show when one object is changed, or the same input used again, after another load; tests load each file once.',
     [S + '*.py', ITEMS + '*.py'], [{'name': 'dataclass default factories', 'where': S + '**: field(default_factory=...)'}, {'name': 'readers', 'where': S + '**: from_sexpr'}],
     ['identity and attributes of loaded and default objects'],
     claim=dict(technique='contract-based deductive verification: freshness and frame postconditions of every reader and constructor, z3', level='proof',
                level_note='Obligations: from_sexpr writes only objects it allocated, the result reaches only objects allocated in the call (nothing of the tree, no default object), defaults are made afresh per instance.'))
prop('C15', 'Saving and loading files is faithful and never damages a file',
     'Saving writes exactly the serialised text, in the requested encoding, to the given path (or to the stored filePath if none is given), replaces previous content, leaves the object as it was and raises if there is no path at all. '
     'If the object cannot be serialised, the error is raised and an existing file keeps its content. Loading reads the given path in the requested encoding, loads its whole content, remembers the path in filePath and raises for anything that is not a file. '
     'Texts are never altered by an encoding: what it cannot represent raises.',
     ['inputs', 'fault_sequences'], 'all objects, paths, encodings and existing file contents; failure of the serialisation at any point',
     'Tests save to a path and load from it with one encoding; failure while saving, existing content, the stored path and other encodings are not exercised.',
     [S + f for f in ('board.py', 'footprint.py', 'schematic.py', 'symbol.py', 'wks.py', 'dru.py', 'libraries.py')],
     [{'name': 'to_file and from_file of the seven file classes', 'where': S + '*.py: to_file, from_file'}], ['file content', 'filePath', 'exceptions'],
     claim=dict(technique='contract-based deductive verification: event-trace contracts (open/read/write) of to_file and from_file, symbolic execution, z3', level='proof',
                level_note='to_sexpr, from_sexpr and parse_sexp are used by contract; the operating system calls are modelled as trace events with arbitrary outcome. Process death between open and close is outside the statement (plain open(..., "w") cannot provide it).'))
prop('C16', 'Library identifiers keep their parts',
     'The library id of a symbol, schematic symbol or footprint is composed as nickname:entry, entry_unit_style or entry, exactly as its parts are set; setting an id gives back those parts, reads back unchanged, and changes nothing else '
     'except that the units of a symbol take over its entry name. (Single-line ids; unit and style numbers in canonical decimal form.)',
     ['inputs'], 'all nicknames, entry names, unit and style numbers',
     'The tests know a handful of ids without unusual characters; the decomposition is a regular expression applied to arbitrary text.',
     [S + 'symbol.py', S + 'footprint.py', ITEMS + 'schitems.py'],
     [{'name': 'libId properties', 'where': S + 'symbol.py: Symbol.libId; ' + S + 'footprint.py: Footprint.libId; ' + ITEMS + 'schitems.py: SchematicSymbol.libId'}], ['libId, libraryNickname, entryName, unitId, styleId'],
     claim=dict(technique='contract-based deductive verification: getter/setter postconditions, regular-expression matches decided over z3 strings', level='proof',
                level_note='Getter and setter verified against composition/decomposition contracts; the groups of re.match are determined by uniqueness queries in the theory of strings.'))
prop('C17', 'New documents are complete, savable and hold what was asked for',
     'create_new of every document class succeeds for all argument texts and returns an independent document that KiCad would start with (standard board layers and net 0, root sheet, the default texts and properties, everything else empty), '
     'with every argument in its place and the library id reading back as given; saving and loading it loses nothing. An unsupported footprint type raises.',
     ['inputs', 'histories'], 'all argument texts (arbitrary characters) and all footprint and table types, any number of creations',
     'Tests create each document once with one harmless set of arguments.',
     [S + f for f in ('board.py', 'footprint.py', 'schematic.py', 'symbol.py', 'wks.py', 'dru.py', 'libraries.py')],
     [{'name': 'create_new', 'where': S + '*.py: create_new'}], ['attributes of the new document', 'text written for it'],
     claim=dict(technique='contract-based deductive verification: postconditions of create_new (content, freshness, round trip) over symbolic arguments, z3', level='proof',
                level_note='create_new is executed symbolically on arbitrary texts; the resulting object graph is finite, so the writers and readers it needs are executed on it in full. The edit time stamp of a footprint is assumed to be a bare token.'))
prop('C18', 'Unset attributes leave no trace; set but empty-looking values are kept',
     'An unset optional attribute never shows up in the file (no "None", no empty or invented token) and stays unset when read back; an attribute that is set, including to zero, false or an empty text, is written and comes back with that value. '
     'Serialising succeeds for every combination of unset attributes.',
     ['inputs'], 'all combinations of set and unset optional attributes of all classes, including zero, false and empty values',
     'Sample files hold only the combinations KiCad happened to write; zero, empty and unset values at most attributes never occur.',
     [S + '*.py', ITEMS + '*.py'], [{'name': 'conditional tokens of every writer', 'where': S + '**: to_sexpr'}, {'name': 'defaults of every reader', 'where': S + '**: from_sexpr'}], ['tokens in the written text', 'optional attributes after reading'],
     claim=dict(technique='contract-based deductive verification: per optional attribute write/read postconditions, z3', level='proof',
                level_note='The wide domain (every attribute typed Optional may be None) for the no-None obligation, the round-trip contract for values. ' + RTNOTE))
prop('C19', 'What has no valid representation is refused, not written or read wrongly',
     'Writing a user-sized page without both dimensions, a dimension without points, a zone without layers, a text box whose angle and corner points contradict each other, a position on its own or a worksheet polygon raises an exception; '
     'reading a user-sized page without dimensions, a dimension inside a footprint or custom pad, a worksheet polygon, a bus alias without members or a lone stackup sublayer raises an exception.',
     ['inputs'], 'all objects and expressions of these invalid forms, whatever their other attributes',
     'No test contains an invalid object; the guards are never executed.',
     [S + 'footprint.py', S + 'wks.py', ITEMS + 'common.py', ITEMS + 'dimensions.py', ITEMS + 'zones.py', ITEMS + 'gritems.py', ITEMS + 'fpitems.py', ITEMS + 'schitems.py', ITEMS + 'brditems.py'],
     [{'name': 'guards of writers', 'where': 'PageSettings, Dimension, Zone, GrTextBox, FpTextBox: to_sexpr'}, {'name': 'guards of readers', 'where': 'PageSettings, Footprint, Pad, Polygon, BusAlias, StackupSubLayer: from_sexpr'}], ['exception raised'],
     claim=dict(technique='contract-based deductive verification: exceptional postconditions (no normal return reachable), z3', level='proof',
                level_note='Symbolic execution over all objects satisfying the invalidity condition; a normal return must be unreachable.'))

if __name__ == '__main__':
    with open(V + '/properties.jsonl', 'w') as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p, c, n in P:
        if c:
            i = p['id']
            checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i, **c))
        else:
            na.append(dict(property=p['id'], reason=n))
    json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3"', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
