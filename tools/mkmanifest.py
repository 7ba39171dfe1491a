"""Writes MANIFEST.json from the checks that exist (run by hand)."""
import json, os, re
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(top, 'properties.jsonl'))]
TECH = 'explicit-state bounded model checking: exhaustive enumeration of {} on the real code, compared with an independent reference'
WHAT = dict(
    C01='document trees and special characters', C02='word sequences, options, widths and nestings', C03='placements of styled runs',
    C04='whitespace assignments', C05='preformatted texts and tag sequences', C06='ways of cutting documents into pieces',
    C07='operation sequences and points of failure', C08='thread schedules (preemption bounded) and call interleavings', C09='tag sequences',
    C10='document trees times selectors', C11='rule orders and forms', C12='class hierarchies', C13='link documents and placements',
    C14='link documents, attribute contents and margins', C15='the URL grammar', C16='list trees, counts and settings',
    C17='quotation trees and settings', C18='box settings and block sequences', C19='word length sequences and widths',
    C20='heading settings and contexts', C21='inline trees and templates', C22='styles', C23='themes, classes and token sequences',
    C24='token sequences and configurations', C25='document trees and configurations', C26='option combinations',
    C27='operation sequences', C28='command line runs', C29='definition list sequences and settings',
    C30='document trees times renderer classes, and returned strings', C31='ways of writing documents', C32='processes (hash seeds, environments, orders) over a corpus',
    C33='document families, with the executed work counted', C34='document trees, token sequences and hostile texts, with all effects monitored')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(top, 'mc', 'checks', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='./run.sh {} quick'.format(i), thorough_cmd='./run.sh {} thorough'.format(i),
            technique=TECH.format(WHAT[i]), level='model_checking',
            level_note='Every case within the stated bounds (evidence/{}.json lists them) is executed on the code in /repo; nothing is sampled and nothing beyond '
            'the bounds is covered. Trusted: CPython, its html.parser, textwrap and urllib, cssselect, and the reference model in mc/ (compared with the code on every case).'.format(i)))
    else:
        na.append(dict(property=i, reason='no check yet'))
json.dump(dict(version=1, setup_cmd='./run.sh selftest', checks=checks, not_applicable=na,
               notes='No hooks: the checks drive the public interface of the unmodified package. See DESIGN.md.'),
          open(os.path.join(top, 'MANIFEST.json'), 'w'), indent=1)
