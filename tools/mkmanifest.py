#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: VCs generated from the clang AST of the current source, discharged by z3'
C = {
 'C01': 'all 44 letters and all tone-rule cases as postconditions of the real functions; oracle tables in contracts/spec.py are trusted',
 'C02': 'operators of Syl against a component-wise specification, order laws as lemmas, SylString loops by inductive invariants; trusts std::list / u16string models',
 'C03': 'round trip reader(writer(syllable)) as postcondition for all components and positions; comma splitting by an inductive invariant over an abstract text; trusts stoi/to_string being inverse',
 'C04': 'every edge operation of DAG<V> against a multiset-of-edges specification kept by both indexes (data-structure invariant over a model of std::multimap), for both label types',
 'C05': 'number of occurrences of an arbitrary word in the returned list equals the number of complete paths spelling it (recursive contract, inductive loop invariants); readings abstracted to label sequences, the abstraction itself discharged on SylString',
 'C06': 'every merging step of the real loops is shown to be a contraction or a regrouping that keeps the words between nodes (lemmas discharged by z3), the lattice lists exactly the chains, fractions are ordered sets; language equality follows by composition',
 'C15': 'JSON texts as joins over the list walked (inductive loop invariants), escaping proved byte by byte; the text of a syllable is an uninterpreted function, so every notation is covered',
 'C16': 'delimited and romanised lines as joins over the list walked (inductive loop invariants), hyphen rule and capital as part of the postcondition',
 'C17': 'path summaries of the real renderer evaluated on all 90,720 valid syllables (complete case analysis) against an independent reader of Thai spelling',
 'C18': 'path summaries of the real renderers evaluated on all 90,720 valid syllables (complete case analysis): injectivity, exact soundex partition, RTGS table',
}
C['C14'] = 'ReadInput against the bytes of the list (UTF-8 decoding, tab split), data bank and trie contents for an arbitrary tracked line (inductive invariant over the generating loop), memory bounds of every library call; libdatrie and stdio trusted; lines of at most 254 bytes'
C['C19'] = 'the argument loops of main against recursive functions of the argument vector (tracked arbitrary argument, option and help position), DoParse and the block writers; getline, streams and text conversions trusted'
C['C07'] = 'safety (every .at within the text), contracts and decreasing measures of every function of the parser; the main loop by a decreasing measure per added state (multiset argument); libthai, libdatrie and UTF-8 conversion trusted'
C['C08'] = 'syllables end where recorded and every part of the graph ends at the same place, as postconditions of every parser function, pool and reading functions; graph represented by its sink'
C['C09'] = 'text half: completeness of every syllable built, as postcondition of every parser function; renderers: path summaries evaluated on all component combinations'
C['C10'] = 'sounds, final and tone of every syllable built against the letters of the text, as postcondition of every parser function; letter tables of C01 re-discharged'
C['C11'] = 'literals as exact copies of maximal runs, every run kept on every path, as postconditions of the parser functions; five notations proved to print them in parentheses'
C['C13'] = 'Dict (open, close, data) against a model of the file bytes, Match against prefixes of stored words (inductive invariant, tracked arbitrary end); libdatrie and stdio trusted'
C['C12'] = 'FindExceptions and the main loop against a specification over dictionary matches; readings and shifting proved; Match through its contract'
C['C20'] = 'for each of 49 vowel forms and three kinds of initial: the rule function, on an arbitrary text around the syllable, adds the expected syllable (letters symbolic); the main loop keeps the tracked sequence (inductive invariant); letter tables and tone rule through the contracts of C01'
C['C21'] = 'as C20, for 290 further combinations of spelling and initial (silenced letters, silent endings, ro han, unwritten vowels, ru): the rule function adds the expected syllables on an arbitrary text around them; regular syllables in between through C20'
C['C22'] = 'FindAbbr on abbreviations of each length with symbolic letters, at an arbitrary place of an arbitrary text, adds exactly the state with the names of the letters; the main loop goes through the abbreviations one by one and keeps the tracked reading (inductive invariants); regular syllables through C20'
PROOF = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22'}
NA = {}
exec(open(os.path.join(HERE, 'tools', 'manifest_extra.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'manifest_extra.py')) else None
m = dict(version=1, setup_cmd='true', hooks=dict(guard='', enable='', source_commits=[]),
         checks=[dict(property=p, quick_cmd='./check.py %s' % p, thorough_cmd='VERIF_TIER=thorough ./check.py %s' % p,
                      evidence_file='evidence/%s.json' % p, technique=TECH, level='proof' if p in PROOF else 'exploration', level_note=n) for p, n in sorted(C.items())],
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
         notes='Each check discharges the obligations of contracts/<id>.py on the current tree, then runs a bounded oracle on the compiled code (counterexample replay; labelled bounded).')
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
for i in ids:
    if i not in C and i not in NA: m['not_applicable'].append(dict(property=i, reason='check under construction'))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
