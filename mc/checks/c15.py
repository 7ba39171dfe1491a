"""C15 Addresses become the right gopher type, selector, host and port."""
import itertools

import ref
from core import Space, Violation
from lib import *

SCHEMES = ['', 'http:', 'https:', 'gopher:', 'GOPHER:', 'Gopher:', 'HTTP:', 'ftp:', 'mailto:', 'javascript:', 'file:', 'gophers:', 'gopher+x:', 'x:', 'data:', '1a:', ':', 'tel:', 'telnet:', 'gemini:']
HOSTS = ['', '//', '//h', '//h.org', '//H.Org', '//u@h', '//u:p@h', '//[::1]', '//[::', '//::1]', '//h.', '//-', '//localhost', '//1.2.3.4', '//@', '//u@']
PORTS = ['', ':70', ':0', ':7070', ':65535', ':65536', ':99999', ':x', ':', ':-1', ':070', ':7 0']
PATHS = ['', '/', '/a', '/a/', '/0/a', '/a.txt', '/d.x/a', '/d.txt/', '/a b', '/~u/a.gif', '/a:b', '/a@b', '/a//b', '/.', '/..', '/a.', '/.txt', '/a.b.html', '/1/menu']
PATHS_REL = ['a', 'a.txt', './a', '../a.md', 'a/b', '.', '..', '.hidden', 'a.', '~u', '%7Eu', 'a b.gif', '#top', '?q', '', 'é.txt', 'a;b', 'a;b.txt', 'a;t=1/c.gif', "a'b", 'a,b', '=', '[x]']
# Whether there is such a file or directory here has no bearing on anything
EXISTING = ['/etc', '/etc/', '/etc/passwd', '/tmp', '/usr/bin', '/bin/sh', '/dev/null', '/repo', '/repo/README.md', '/repo/gopher_render', 'gopher_render', 'README.md', 'LICENSE', '/no-such-file', '/etc/no-such-directory/']
TAILS = ['', '?q=a.txt', '#f.gif', '?q#f', '#', '?', '?a/b.png', '#a/b.png', '?a=http://x/']
EXTS = ['html', 'htm', 'gif', 'jpg', 'jpeg', 'png', 'bmp', 'tiff', 'txt', 'csv', 'tsv', 'md']
OTHER_EXTS = ['zip', 'tar.gz', 'mp3', 'h', 'tif', 'mdx', 'text', 'htmlx', 'xhtml', 'p', '7z', 'svg', 'pdf', 'html5', 'gi', 'gifs', 'jpe', '1', '-', '_', 'é', 'txt~', 'md ']

CONFIGS = [('gopher.example', 70), ('localhost', 7070), ('h', 1)]


def addresses(schemes, hosts, ports, paths, tails):
    def gen():
        for s, h, po, pa, t in itertools.product(schemes, hosts, ports, paths, tails):
            if po and not h:
                continue
            yield [s + h + po + pa + t, 0]
    return gen


def relative():
    for p in PATHS_REL + EXISTING:
        for t in TAILS:
            for prefix in ('', '/', '/x.y/', 'x.y/', '//h/', '//h.txt/', '//h:99/', 'gopher://h/', 'gopher://h:99/z.gif/', 'http://h/', 'foo:'):
                for c in range(len(CONFIGS)):
                    yield [prefix + p + t, c]


def cases_of(s):
    """Every mixture of upper and lower case."""
    letters = [sorted({c.lower(), c.upper()}) for c in s]
    return [''.join(c) for c in itertools.product(*letters)]


def extensions():
    for ext in EXTS + OTHER_EXTS:
        for e in cases_of(ext):
            for pattern in ('/a.{}', 'a.{}', '/d/a.{}', 'gopher://h/a.{}', '/a.{}/', '/a.{}/b', '/{}', '/.{}', '/a.b.{}', '/a.{}.b', 'gopher://h:7/d.e/{}', '/d.{}/', 'http://h/a.{}', '/a.{}?x', '/a.{}#x', '/a{}', '/..{}', '/a..{}'):
                yield [pattern.format(e), 0]


# Extensions and schemes that have no meaning here
KNOWN_EXTS = """3gp 7z aac aiff ai apk ascii asc asm asp aspx atom au avif avi awk bak bat bib bin bz2 c cc cfg cgi chm class conf cpp cs css cue cur dat db deb dif diff dir djvu dll dmg doc docx dot dvi elf eml eps epub exe f90 fig
flac flv fb2 gem gemini gmi go gophermap gph gz hpp hqx icns ico ics idx iff img info ini iso jar java jfif jp2 js json jsp jsonl jxl kml ksh lha log lua lz lzh m3u m4a m4v mac man map markdown mbox md5 mdown me mhtml mid midi mjs mkd mkv mng mobi
mod mov mp2 mp4 mpeg mpg msi nfo numbers o obj odf odp ods odt ogg ogv old opml opus org orig otf p7s pages par pas patch pbm pcx pem pgm php php3 phtml pict pkg pl pls pm png8 pnm pod pps ppm ppt pptx properties ps psd py pyc
ra ram rar rb rc readme rdf rm rmd roff rpm rs rss rst rtf s sass scm sh sha256 shar shtml sig sit snd so sql srt stl svgz swf swift tar tbz tcl tex texi tga tgz tiff2 tlz toml torrent troff tsx ttf ttl txt2 txz uu vcf vcs vob vtt wad wav wbmp
weba webm webp wma wmv woff woff2 wpd wsdl xbm xcf xht xls xlsx xml xpm xsl xslt xwd xyz xz yaml yml z zst 0 00 2 gif89a""".split()
KNOWN_SCHEMES = """about acct afp aim apt bitcoin blob bolo callto cap cid coap cvs dav dict dns doi ed2k facetime feed filesystem finger fish geo git go gopherd gtalk h323 hdl http+unix httpg icap im imap info ipp irc irc6 ircs iris jar jms ldap ldaps
magnet market maps message mid mms mtqp mupdate mvn nfs news nntp opaquelocktoken pop pres proxy prospero rmi rsync rtmp rtsp s3 secondlife sftp sgn shttp sieve sip sips skype smb sms snews snmp soap spartan spotify ssh steam stun svn tag teamspeak
tftp things thismessage tip titan tn3270 tv udp unix urn url vbscript view-source wais webcal ws wss wtai xmlrpc xmpp xri ymsgr z39.50 git+ssh g gop gopher1 gopherr https1 httpss httpx shttps""".split()


def named():
    """Extensions, schemes and names that have no meaning, and those that the code mentions."""
    known, new = mentioned_words()
    mentioned = [w for w in known['words'] + new['words'] if re.fullmatch(r'[\w.:+-]+', w)]
    for e in EXTS + KNOWN_EXTS + mentioned:
        for form in sorted({e, e.upper(), e.lower(), e.capitalize(), e.strip('.:')}):
            for pattern in ('/a.{}', 'a.{}', 'gopher://h/a.{}', '/a.{}?x', '/a.b.{}', '/a.{}.gif', '/a.txt.{}', '/{}', '/{}/', 'x.{}/', '{}.txt', '/x/{}.txt', '/a.{}#x', '/a{}', '/a.gif?b.{}', '/a.gif#b.{}', '/{}/x', '//h/a.{}', '/a.x{}', '/a.{}x', '?{}', '#{}', '/a?{}=1'):
                yield [pattern.format(form), 0]
    for s in KNOWN_SCHEMES + mentioned + EXTS:
        for form in sorted({s, s.upper(), s.lower(), s.capitalize(), s.strip('.:')}):
            for pattern in ('{}:x', '{}:/x', '{}://h/x', '{}://h', '{}:', '{}:x.txt', '{}://h:7/a.gif', '{}:70', '//{}/x', 'gopher://{}/x', 'gopher://{}:7/x', 'gopher://{}.org/', 'gopher://u.{}', 'http://{}/', '{}', './{}:x', 'x{}:y', '{}x:y', 'x+{}:y', '{}+x:y', '{}@h', 'gopher://{}@h/x', 'gopher:{}:x'):
                if not form[-1:] == ':':
                    for c in range(len(CONFIGS)):
                        yield [pattern.format(form), c]
    for n in sorted({m for n in known['numbers'] + new['numbers'] for m in (n - 1, n, n + 1) if m >= 0}):
        for pattern in ('gopher://h:{}/a', 'gopher://h:{}', '/{}', '/a.{}', '{}', '/{}/a.txt', 'gopher://h/{}', 'gopher://h/{}/a.gif', '{}:x', '//h:{}/a', 'http://h:{}/', 'gopher://{}/a'):
            yield [pattern.format(n), 0]


def strings(alphabet, n):
    def gen():
        for k in range(0, n + 1):
            for chars in itertools.product(alphabet, repeat=k):
                yield [''.join(chars), 0]
                yield ['gopher:' + ''.join(chars), 0]
                if k <= n - 1:
                    yield ['gopher://h' + ''.join(chars), 1]
    return gen


def check(case):
    address, c = case
    host, port = CONFIGS[c]
    cfg = dict(fmt='gophermap', host=host, port=port, link='footer', img='footer')
    source = '<p><a href="{0}">x</a><img src="{0}" alt="y"></p>'.format(html.escape(address))
    out = render_html(source, cfg)
    lines = [l for l in out.split('\n') if '\t' in l]
    type_, selector, h, p = ref.gopher_link(re.sub('[\t\r\n]', '', address.strip()), dict(cfg))
    want = ['{}[1] x\t{}\t{}\t{}'.format(type_, selector, h, p), '{}[2] y\t{}\t{}\t{}'.format(type_, selector, h, p)]
    if lines != want:
        raise Violation('not the right lines for an address\n' + show(('address', address), ('configured', (host, port)), ('expected', want), ('actual', lines), ('output', out)))
    return lines


FORMS = ['/{}', '{}', '/{}.gif', '/a.{}', '/a.gif/{}', '/a?{}', '/a.gif#{}', 'gopher://h/{}', 'gopher://h/1/{}.txt', 'gopher://{}/', 'gopher://{}.org:7/b.md', 'gopher://u{}@h/b', 'http://{}/', 'http://h/{}', 'x{}:y', 'gopher:{}', '//h/{}', 'mailto:{}']


def lengths(limit):
    """Every part of an address, of every length and number of repetitions."""
    def gen():
        for n in list(range(0, limit)) + [1000, 1023, 1024, 1025, 2049, 4097, 10001]:
            for unit in ('a', 'a/', 'a.', '/', '.', 'Z0-'):
                for form in FORMS:
                    if n < 64 or n % 8 in (0, 1, 7) or unit == 'a':
                        yield [form.format(unit * n), 0]
    return gen


def ports():
    for port in range(0, 65540):
        if port < 300 or port > 65300 or port % 97 == 0:
            yield ['gopher://h:{}/a'.format(port), 0]


def characters():
    for start in range(32, 0x110000, 16):
        if start >= 0x3000 and start % 0x80 and not 0xf900 <= start < 0x10000 or start >= 0x20000 and start % 0x1000:
            continue
        text = ''.join(chr(c) for c in range(start, start + 16) if not 0xd800 <= c < 0xe000)
        for form in FORMS:
            yield [form.format(text), 0]
    for c in range(32, 0x2100):
        for form in FORMS:
            yield [form.format(chr(c)), 1]


def spaces(tier):
    t = tier == 'thorough'
    return [
        Space('grammar', addresses(SCHEMES, HOSTS, PORTS if t else PORTS[:4] + PORTS[5:6] + PORTS[7:8], PATHS if t else PATHS[::3] + ['/a.b.html'], TAILS if t else TAILS[:4]), check, 'schemes x hosts x ports x paths x queries and fragments'),
        Space('gopher', addresses(['gopher:', 'Gopher:', '', 'http:'], HOSTS, PORTS, PATHS, TAILS if t else TAILS[:3]), check, 'every form of gopher address'),
        Space('relative', relative, check, 'every form of relative address'),
        Space('extensions', extensions, check, 'every extension in every mixture of cases and every position'),
        Space('lengths', lengths(1100 if t else 300), check, 'every part of an address of every length'),
        Space('named', named, check, 'extensions, schemes and names without a meaning, and all the words and numbers that the code mentions, in every place'),
        Space('ports', ports, check, 'ports of gopher addresses'),
        Space('characters', characters, check, 'characters of Unicode in every part of an address'),
        Space('strings', strings('/.:a?#', 6 if t else 5), check, 'every short string over the characters that matter'),
        Space('strings2', strings('/:@[]1;', 5 if t else 4), check, 'every short string over the characters that matter in hosts'),
    ]


ASSUMPTIONS = ['Control characters within addresses are covered by C14.']
