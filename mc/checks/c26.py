"""C26 Configuration is honoured, and impossible ones are rejected."""
import itertools

import ref
from core import COUNT, Space, Violation
from lib import *

AXES = dict(
    width=[None, 1, 20, 67, 100],
    box=[None, [20, [0, 0, 0, 0]], [40, [2, 3, 1, 4]], [67, [1, 0, 1, 0]]],
    fmt=[None, 'text', 'gophermap'],
    link=[None, 'footer', 'after_block', 'inline'],
    img=[None, 'inline', 'footer', 'after_block'],
    host=[None, 'gopher.example'],
    port=[None, 7070],
    optimise=[None, True, False],
    renderers=[None, {'em': ['InlineRenderer', {'template': '<{}>'}]}, {'p': [None, {'margin': [0, 2, 0, 2]}], 'h1': 'HeaderRenderer'}],
    extracted=[None, {'a': [None, {'max_link_description': 3}]}],
)
DEFAULT = dict(width=67, fmt='text', link='footer', img='inline', host='', port=70, optimise=True)
WORDS = 'Some text that is long enough to show the width of the lines that it is on, more than once in any case.'
DOCS = [
    [el('h1', 'Title'), el('p', 'One ', el('em', 'two'), ' ', el('a', 'a long link', href='/three.txt'), ' ', el('img', src='/f.png', alt='four'), ' ' + WORDS),
     el('ul', el('li', el('a', 'web', href='http://x.example/y')), el('li', WORDS))],
    [el('p', el('img', src='gopher://other.example/g.gif', alt='five six seven'), ' ', el('a', 'b', href='gopher://other.example:71/h', title='t')), 'root'],
]


def configs():
    keys = list(AXES)
    for values in itertools.product(*AXES.values()):
        yield {k: v for k, v in zip(keys, values) if v is not None}


def arguments(c):
    """The arguments of the real constructor."""
    from gopher_render.rendering import Box
    kw = {}
    for k, name in (('width', 'width'), ('fmt', 'output_format'), ('link', 'link_placement'), ('img', 'image_placement'), ('host', 'gopher_host'), ('port', 'gopher_port'), ('optimise', 'optimise')):
        if k in c:
            kw[name] = c[k]
    if 'box' in c:
        kw['box'] = Box(width=c['box'][0], margin=list(c['box'][1]))
    for k, name in (('renderers', 'renderers'), ('extracted', 'extracted_link_renderers')):
        if k in c:
            kw[name] = {s: renderer_spec(v) for s, v in c[k].items()}
    return kw


def impossible(c):
    return c.get('fmt') == 'gophermap' and (c.get('link') == 'inline' or not c.get('host'))


def create(c):
    from gopher_render import GopherHTMLParser
    try:
        p = GopherHTMLParser(**arguments(c))
    except ValueError:
        if not impossible(c):
            raise Violation('rejected\n' + show(('options', c)))
        return None
    COUNT.events += 1
    if impossible(c):
        raise Violation('not rejected\n' + show(('options', c)))
    return p


def expectation(c, nodes):
    cfg = dict(DEFAULT, **{k: v for k, v in c.items() if k != 'box'})
    if 'box' in c:
        cfg['width'], cfg['margin'] = c['box'][0], c['box'][1]
    return ref.render(nodes, cfg)


def run(p, c, nodes):
    source = to_html(nodes)
    p.feed(source)
    p.close()
    COUNT.runs += 1
    COUNT.events += len(TOKEN.findall(source))
    want = expectation(c, nodes)
    if p.parsed != want:
        raise Violation('not what the options ask for\n' + show(('options', c), ('source', source), ('expected', want), ('actual', p.parsed)))
    return p.parsed


def check_combination(c):
    p = create(c)
    if p is None:
        return 'rejected'
    return run(p, c, DOCS[0])


SOME = [
    dict(), dict(width=20), dict(box=[30, [1, 2, 1, 2]]), dict(width=5, box=[40, [0, 0, 0, 3]]), dict(fmt='gophermap', host='h.example'), dict(fmt='gophermap', host='i.example', port=7), dict(link='inline', img='footer'),
    dict(link='after_block', optimise=False), dict(renderers={'em': ['StrongRenderer', {}], 'p': [None, dict(margin=[0, 0, 0, 4])]}), dict(extracted={'a': [None, dict(max_link_description=1)], 'img': ['NonRenderer', {}]}), dict(fmt='gophermap'),
    dict(fmt='gophermap', host='h', link='inline'), dict(renderers={'': ['InlineRenderer', {}], 'li': [None, dict(line_template='- {}')]}), dict(host='unused', port=1),
]


def orders(n):
    """Parsers created one after the other, used in another order."""
    def gen():
        for k in range(2, n + 1):
            for combo in itertools.product(range(len(SOME)), repeat=k):
                for order in itertools.permutations(range(k)):
                    for docs in ([0, 1, 0][:k], [1, 1, 1][:k]):
                        yield [combo, order, docs]
    return gen


def check_order(case):
    combo, order, docs = case
    parsers = [create(SOME[i]) for i in combo]
    return [run(parsers[i], SOME[combo[i]], DOCS[docs[i]]) if parsers[i] else None for i in order]


def shared():
    """The same objects given as options of several parsers: they are not changed."""
    for box in AXES['box'][1:]:
        for r in AXES['renderers'][1:]:
            for link in ('footer', 'after_block'):
                for n in (1, 2, 3):
                    yield [box, r, link, n]


def check_shared(case):
    from gopher_render import GopherHTMLParser
    from gopher_render.rendering import Box
    box, r, link, n = case
    real_box = Box(width=box[0], margin=list(box[1]))
    real = {s: renderer_spec(v) for s, v in r.items()}
    extracted = {'a': renderer_spec([None, {'max_link_description': 4}])}
    before = repr((sorted(vars(real_box).items(), key=lambda i: i[0]), real, extracted))
    c = dict(box=box, renderers=r, link=link, extracted={'a': [None, {'max_link_description': 4}]})
    parsers = [GopherHTMLParser(box=real_box, renderers=real, extracted_link_renderers=extracted, link_placement=link) for _ in range(n)]
    outs = [run(p, c, DOCS[i % 2]) for i, p in enumerate(parsers)]
    plain = GopherHTMLParser()
    run(plain, {}, DOCS[0])
    after = repr((sorted(vars(real_box).items(), key=lambda i: i[0]), real, extracted))
    if before != after:
        raise Violation('the options were changed\n' + show(('before', before), ('after', after)))
    return outs


def defaults():
    """Each option given its default value or left out: the same."""
    for mask in range(2 ** len(DEFAULT)):
        for d in range(len(DOCS)):
            yield [mask, d]


def check_default(case):
    mask, d = case
    c = {k: v for i, (k, v) in enumerate(DEFAULT.items()) if mask >> i & 1}
    p = create(c)
    return run(p, {}, DOCS[d])


def widths():
    for w in range(1, 121):
        for d in range(len(DOCS)):
            yield [dict(width=w), d]
            yield [dict(box=[w, [0, 0, 0, 0]]), d]
            yield [dict(width=w, box=[33, [1, 1, 1, 1]]), d]
            for left, right in itertools.product(range(0, 4), repeat=2):
                yield [dict(box=[w, [left % 2, right, right % 3, left]]), d]


def check_width(case):
    c, d = case
    return run(create(c), c, DOCS[d])


def wide(limit):
    """Every width, with texts that are longer: of short words, of long ones and of one word."""
    def gen():
        large = {2 ** k + d for k in range(10, 16) for d in (-1, 0, 1)} | {10 ** k + d for k in (3, 4) for d in (-1, 0, 1)} | {5000, 1500, 30000}
        for w in list(range(1, limit + 1)) + sorted(n for n in large if n > limit):
            for kind in range(4):
                for c in (dict(width=w), dict(box=[w, [0, 0, 0, 0]]), dict(box=[w, [1, 2, 1, 3]])) if w > 5 else (dict(width=w),):
                    yield [c, kind]
    return gen


def check_wide(case):
    c, kind = case
    w = c.get('width') or c['box'][0]
    if kind == 0:
        nodes = [el('p', 'ab cde ' * (w // 3 + 1)), el('blockquote', el('p', 'f ' * w))]
    elif kind == 1:
        word = 'x' * max(w // 3, 1)
        nodes = [el('p', ' '.join([word] * 7)), el('ul', el('li', ' '.join([word] * 4)), el('li', 'b'))]
    elif kind == 2:
        nodes = [el('p', ' '.join('y' * max(n, 1) for n in (w - 3, 2, w - 1, w, 1, w - 5, 3)))]
    else:
        nodes = [el('p', el('em', 'ab cde ' * (w // 6 + 1)), el('a', 'z', href='/' + 'h' * (w // 2))), el('hr'), el('h2', 'T ' * (w // 2 + 3))]
    return run(create(c), c, nodes)


HOSTS = ['h', 'h.example', 'H.Example', '::1', '[::1]', '127.0.0.1', 'h:70', 'é.example', 'h.', 'user@h', 'h/x', '0', '{}', '{host}', '%s', 'a b', 'http://h', 'localhost']
PORTS = [0, 1, 69, 70, 71, 80, 443, 7070, 65535]


def hosts():
    for host in HOSTS:
        for port in PORTS:
            for fmt in ('text', 'gophermap'):
                for link in ('footer', 'after_block'):
                    for img in ('inline', 'footer', 'after_block'):
                        for d in range(len(DOCS)):
                            yield [dict(host=host, port=port, fmt=fmt, link=link, img=img), d]


def mentioned():
    known, new = mentioned_words()
    for source in (known, new):
        full = source is new
        for n in sorted({m for n in source['numbers'] for m in (n - 1, n, n + 1) if m > 0}):
            for d in range(len(DOCS)):
                for fmt in ('text', 'gophermap'):
                    for link in ('footer', 'after_block'):
                        yield [dict(host='h', port=n, fmt=fmt, link=link, img='footer'), d]
                        yield [dict(host='h', width=n, fmt=fmt, link=link), d]
                        yield [dict(host='h', box=[n, [1, 2, 1, 3]], fmt=fmt, link=link), d]
                        yield [dict(host='h', width=40, box=[n, [0, n % 50, 0, n % 50]], fmt=fmt, link=link), d]
        for w in source['words']:
            for host in [w, w.upper(), w + '.org', 'x.' + w, 'x' + w, w + ' x'] if full else [w]:
                for port in (70, 7070) if full else (70,):
                    for d in range(len(DOCS)):
                        for fmt in ('text', 'gophermap'):
                            yield [dict(host=host, port=port, fmt=fmt, link='footer', img='footer'), d]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('combinations', configs, check_combination, 'every combination of values of the 10 options'),
        Space('defaults', defaults, check_default, 'every subset of the options given their defaults'),
        Space('orders', orders(3), check_order, 'every sequence of parsers with {} configurations, used in every order'.format(len(SOME))),
        Space('shared', shared, check_shared, 'options shared by several parsers'),
        Space('hosts', hosts, check_width, 'hosts and ports'),
        Space('mentioned', mentioned, check_width, 'the words and numbers that the code mentions as hosts, ports and widths'),
        Space('wide', wide(2100 if t else 700), check_wide, 'every width up to {}, and larger ones, with texts longer than it'.format(2100 if t else 700)),
        Space('widths', widths, check_width, 'widths and margins'),
    ]
