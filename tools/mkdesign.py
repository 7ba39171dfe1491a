"""Writes DESIGN.md from design_head.md, properties.jsonl, the evidence of a
quick run of all checks, tools/costs.json (thorough) and seeded/."""
import glob, json, os
top = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ORACLE = dict(
 C01="Reference renderer for markup; in the bigger trees the visible characters of the output, less the markers and lists that the reference adds, have to be those of the text, once and in order.",
 C02="`textwrap.wrap` with the same options and the width left by the chain of boxes, computed by the reference; every line compared.",
 C03="Metamorphic: the same document without the styling, rendered by the code too; plus the sequence of escape codes and, for every character, the set of codes open at it.",
 C04="Metamorphic: the same document with a single blank in each significant gap and none in the insignificant ones.",
 C05="The text itself, prefixed by what the reference gives for the surroundings; `pre` state from the tags that are open by the rules of C09.",
 C06="The output of a single feed. Every cut position of every document is a case, so cuts within tags, references, comments and words occur by construction.",
 C07="A fresh parser for each document. All operation sequences to the given depth; the state space is the tree of histories (no state matching is needed at these depths). Fault injection: an exception is raised at each executed line of the package in turn (`sys.settrace`), and by each call of a renderer in turn (subclasses of the package's own), after which the parser is closed again or reset and reused, and parsers in use at the time and new ones are compared with undisturbed ones.",
 C08="Each parser alone. Call interleavings are enumerated as merges; threads run under a controlled scheduler (`sys.settrace`, one thread runs at any moment) which enumerates every schedule with one preemption at any executed line of the package and with two preemptions at function calls; arguments and class defaults are compared with deep copies made before.",
 C09="A 20-line model of the open element stack builds the tree which the reference then renders; all texts are distinct, so loss, duplication and movement show.",
 C10="Selectors are generated as structures and evaluated on the generated tree by the CSS definitions, apart from any parser of selectors; the renderer marks the elements it was used for.",
 C11="Specificity computed on the generated structure, a stable sort, and a dict update per matching rule.",
 C12="Classes are created with `type()` in every shape with Python's own MRO; expected settings are a `ChainMap` over the MRO.",
 C13="Reference renderer (numbering, marks, lists and placements restated from the statement).",
 C14="Reference renderer, and a line grammar checked on every output: lines with tabs have four fields, their number is that of the links that have to be listed; no other line has a tab.",
 C15="A parser of addresses after RFC 3986's grammar written for this check; the enumeration is a grammar of components and all short strings over the delimiters.",
 C16="Reference renderer; numbers from the position of the item in the generated tree.",
 C17="Reference renderer for the whole; and that every line between the first and last of a quotation starts with the prefixes.",
 C18="Reference renderer with its own rectangles: a block is a list of equally wide strings to which margins, borders and paddings are added.",
 C19="`textwrap.wrap` for the breaks, arithmetic for the gaps, for the functions called directly and for blocks.",
 C20="Reference for headings, in surroundings of all kinds.",
 C21="Reference renderer over all inline trees.",
 C22="A table of ECMA-48/xterm codes written for this check; the parameters between ESC[ and m are compared as sets of codes, order within a sequence being free where the terminal does not care.",
 C23="The same code without the theme, and the SGR state of every character of each class computed from the theme's own entries.",
 C24="No exception, terminates, result is a `str`, for every sequence.",
 C25="Metamorphic: `re.sub` of trailing whitespace on the unoptimised output.",
 C26="Exceptions by the statement's two rules; otherwise the reference renderer with that configuration, and pairs of configurations created in different orders.",
 C27="A `dict` with the same operations in lockstep, exceptions and every observer compared after each step.",
 C28="The library called with the documented options, in-process (`runpy`) for breadth and as a subprocess for exit status and streams; file states before and after.",
 C29="Reference renderer.",
 C30="Reference renderer, to which the user's renderers are added as further kinds; for the element that a renderer sees, a small parser of the enumerated attribute forms.",
 C31="Metamorphic: the output for the document written in the usual way.",
 C32="The results in this process. The enumeration is over hash seeds (the scheduler of the iteration order of sets), environments, interpreter flags and orders of documents; that the seeds lead to all orders of any two (thorough: three) names was verified over all pairs and triples of the names in use.",
 C33="Counts of executed calls, branches and jumps (`sys.monitoring`) at equally spaced sizes: of a polynomial of degree two (three for nesting) the third (fourth) difference is zero. Beyond 12 million events a case counts as an explosion. Built-in calls are opaque to this, so one more space bounds the time for sixty thousand pieces.",
 C34="Python's audit events (files, sockets, processes), captured streams, and snapshots of the process and of the names in all modules that the package uses.",
)
WHY = dict(
 C01="Loss depends on the pair of an element and its neighbour, on special characters in a context, or on number and length.",
 C02="Off-by-ones show at one width of many and one combination of margins and prefixes.",
 C03="Whether a code falls on a wrapping point, a cut or a padded edge depends on word lengths and width.",
 C04="Each gap of a document is a separate decision in the code (strip, collapse, keep).",
 C05="State that leaks out of a `pre` needs a particular order of tags.",
 C06="The cut is a scheduling choice of the caller; tests never cut.",
 C07="Left-over state shows only after a particular history.",
 C08="Shared state shows only under a particular interleaving or re-use.",
 C09="Malformed markup is a sequence problem; tests have well-formed fragments.",
 C10="A matching function is a predicate over two structures.",
 C11="Ties, lists and partial rules interact in triples.",
 C12="Diamonds and mixins need four classes.",
 C13="Numbering, placement and nesting interact.",
 C14="A gophermap line is broken by any stray tab, newline, indent or wrap from anywhere around it.",
 C15="Each component can be absent, odd or malformed, and they combine.",
 C16="Marker width, count and nesting interact.",
 C17="Prefix, blank lines and nested blocks interact.",
 C18="Twelve numbers per block and several blocks.",
 C19="An off-by-one in the distribution of blanks shows at one combination of lengths and width.",
 C20="Eight settings in all combinations and contexts.",
 C21="Order and adjacency of inline elements.",
 C22="2^13 subsets and 256+4096 colours.",
 C23="35 themes with hundreds of entries which nothing else loads.",
 C24="Crash freedom over all inputs.",
 C25="Two runs of everything.",
 C26="A product of options.",
 C27="Aliasing between items and attributes needs sequences.",
 C28="File states, arguments and content combine.",
 C29="Sequences of terms and definitions.",
 C30="Composition of unknown classes with every built-in one.",
 C31="There are many ways to write the same document, and each position of a comment is a case of its own.",
 C32="A test suite is one process.",
 C33="Growth is a property of families of documents.",
 C34="Nothing that tests look at.",
)
costs_path = os.path.join(top, 'tools', 'costs.json')
costs = json.load(open(costs_path)) if os.path.exists(costs_path) else {}
for f in sorted(glob.glob(os.path.join(top, 'evidence', '*.json'))):
    e = json.load(open(f))
    if e['violations'] == 0:
        costs.setdefault(e['property'], {})[e['tier']] = dict(
            wall=e['wall_s'], states=e['coverage']['states'], runs=e['coverage']['traces_validated_against_impl'],
            spaces=[(s['space'], s['bound'], s['cases']) for s in e['coverage']['spaces']])
json.dump(costs, open(costs_path, 'w'), indent=0, sort_keys=True)
out = [open(os.path.join(top, 'tools', 'design_head.md')).read().replace('by\n`tools', 'by\n`tools')]
out.append('## The properties\n\nCosts are of a run on 8 cores. The numbers of cases are those of the quick check; the thorough one has the same spaces with the larger bounds in `mc/checks/`.\n')
for l in open(os.path.join(top, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    out.append('### {} {}\n'.format(i, p['title']))
    out.append('*Oracle.* {}\n\n*Why not tests.* {}\n'.format(ORACLE[i], WHY[i]))
    c = costs.get(i, {})
    q = c.get('quick')
    if q:
        out.append('| space | enumerated | cases |\n|---|---|---|')
        for s in q['spaces']:
            out.append('| {} | {} | {} |'.format(*[str(x).replace('|', '\\|') for x in s]))
        line = '\nQuick: {states} states, {runs} executions compared, {wall:.0f} s.'.format(**q)
        if 'thorough' in c:
            line += ' Thorough: {states} states, {runs} executions compared, {wall:.0f} s.'.format(**c['thorough'])
        out.append(line + '\n')
out.append('Properties that this family cannot decide: none of those listed.\n')
out.append('## Planted bugs\n\nEach is in `seeded/`; *caught* names the checks that are known to report it in their quick tier (the check of its property always; `tools/plant.py checkall` tries all).\n')
out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
caught_path = os.path.join(top, 'tools', 'caught.json')
caught = json.load(open(caught_path)) if os.path.exists(caught_path) else {}
for f in sorted(glob.glob(os.path.join(top, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    out.append('| {} | {} | {} | {} |'.format(name, m['property'], m['needs'].replace('|', '\\|'), (', '.join(caught[name]) or '**missed**') if name in caught else 'not run since'))
out.append(open(os.path.join(top, 'tools', 'design_tail.md')).read())
open(os.path.join(top, 'DESIGN.md'), 'w').write('\n'.join(out))
