"""A reader of translation files, as spec/OrtTranslate.tla has them, and ways to write them."""
import re, xml.parsers.expat as X
from xml.sax.saxutils import quoteattr


class Stop(Exception):
    pass


def lit(t):
    """Text as an ort literal."""
    return re.sub(r'(?<!\\)"', r'\\"', t)


FIVE = {'&lt;': '<', '&gt;': '>', '&amp;': '&', '&quot;': '"', '&apos;': "'"}


def plain(raw):
    """The five entities; others are kept as they stand (see ort-xliff)."""
    return re.sub('&(?:lt|gt|amp|quot|apos);', lambda m: FIVE[m.group()], raw)


def read(data):
    """The translation file in some bytes."""
    f = dict(bad='', lang='', attrs=[], units=[])
    rank = ['', 'may', 'must']

    def bad(w):
        f['bad'] = max(f['bad'], w, key=rank.index)
    try:
        text = data.decode('utf-8')
        if data.startswith(b'\xef\xbb\xbf') or '\r' in text:
            bad('may')
    except UnicodeDecodeError:
        bad('may')
    p = X.ParserCreate()
    stack, st = [], dict(unit=None, at=None, files=0, xliffs=0)

    def start(name, at):
        if st['at'] is not None:
            raise Stop               # an element in a translation
        if name == 'xliff':
            if stack or st['xliffs']:
                raise Stop
            st['xliffs'] += 1
            if at.get('version') != '1.2':
                raise Stop
        elif name == 'file':
            st['files'] += 1
            if 'xliff' not in stack:
                raise Stop
            if stack != ['xliff'] or st['files'] > 1:
                bad('may')
            if not all(k in at for k in ('source-language', 'target-language', 'original')):
                raise Stop
            f['lang'] = at['target-language'].lower()
            if not re.match(r'[a-zA-Z][a-zA-Z0-9]*\Z', at['target-language']):
                bad('may')
            f['attrs'] = [at['source-language'], at['original']]
        elif name == 'trans-unit':
            if 'file' not in stack:
                raise Stop
            if st['unit'] is not None:
                raise Stop
            if stack[2:] != ['body']:
                bad('may')
            if 'id' not in at:
                raise Stop
            st['unit'] = dict(id=at['id'], source=[], target=[])
        elif name in ('source', 'target'):
            if st['unit'] is None:
                raise Stop
            if stack[-1] != 'trans-unit' or st['unit'][name]:
                bad('may')
            st['at'] = None          # set below, past the tag
            st['open'] = name
            gt = data.index(b'>', p.CurrentByteIndex)
            # attribute values may have >
            m = re.compile(rb'<[^\s/>]+(?:\s+[^\s=>]+\s*=\s*(?:"[^"]*"|\'[^\']*\'))*\s*(/?)>'
                           ).match(data, p.CurrentByteIndex)
            if not m:
                bad('may')
                st['at'] = gt + 1
            else:
                st['at'] = m.end()
                if m.group(1):
                    st['at'] = -1
        stack.append(name)

    def end(name):
        stack.pop()
        if name in ('source', 'target') and st['at'] is not None:
            raw = b'' if st['at'] < 0 else data[st['at']:p.CurrentByteIndex]
            st['at'] = None
            if re.search(rb'<!--|<\?|<!\[', raw):
                bad('may')
            t = raw.decode('utf-8', 'replace')
            if t:
                st['unit'][name].append(lit(plain(t)))
            if t.endswith('\\'):
                bad('may')           # no literal has such text
        elif name == 'trans-unit':
            u, st['unit'] = st['unit'], None
            if not u['source']:
                raise Stop
            f['units'].append(dict(id=u['id'], source=u['source'][0], target=u['target'][:1]))
    p.StartElementHandler, p.EndElementHandler = start, end
    p.StartDoctypeDeclHandler = lambda *a: bad('may')
    try:
        p.Parse(data, True)
        if not st['xliffs'] or not st['files']:
            raise Stop
    except (X.ExpatError, Stop):
        f['bad'] = 'must'
    except (KeyError, IndexError, ValueError) as x:
        f['bad'] = 'must'
    if f['bad'] == 'must':
        f.update(lang='', attrs=[], units=[])
    return f


def esc(t, rng=None):
    """A text as XML has it, in one of several ways."""
    out = []
    for ch in t:
        e = {'<': '&lt;', '&': '&amp;', '>': '&gt;', '"': '&quot;', "'": '&apos;'}.get(ch)
        if e and (rng is None or ch in '<&' or rng.random() < .5):
            out.append(e)
        else:
            out.append(ch)
    return ''.join(out).replace(']]>', ']]&gt;')


def write(f, rng):
    """A translation file as another tool would write it."""
    ind = rng.choice(('', '  ', '\t'))
    nl = rng.choice(('\n', '\n', ''))
    o = [rng.choice(('', '<?xml version="1.0"?>\n', '<?xml version="1.0" encoding="UTF-8"?>\n'))]
    if rng.random() < .2:
        o.append('<!-- made by hand -->\n')
    at = ['target-language=' + quoteattr(f['rawlang']), 'source-language=' + quoteattr(f['attrs'][0]),
          'original=' + quoteattr(f['attrs'][1]), 'datatype="plaintext"']
    rng.shuffle(at)
    xs = ['version="1.2"', 'xmlns="urn:oasis:names:tc:xliff:document:1.2"']
    rng.shuffle(xs)
    o.append('<xliff %s>%s' % (' '.join(xs), nl))
    o.append('%s<file %s>%s' % (ind, ' '.join(at), nl))
    if rng.random() < .2:
        o.append('<header></header>' + nl)
    o.append('%s<body>%s' % (ind * 2, nl))
    for u in f['units']:
        o.append('%s<trans-unit id=%s%s>%s' % (ind * 3, quoteattr(u['id']), rng.choice(
            ('', '', ' approved="yes"')), nl))
        o.append('%s<source%s>%s</source>%s' % (ind * 4, rng.choice(('', ' ')),
                                                esc(u['source'], rng), nl))
        if u['target']:
            o.append('%s<target%s>%s</target>%s' % (ind * 4, rng.choice(
                ('', ' state="translated"', '\n')), esc(u['target'][0], rng), nl))
        if rng.random() < .1:
            o.append('<note>about &lt;this></note>' + nl)
        o.append('%s</trans-unit>%s' % (ind * 3, nl))
    o.append('%s</body>%s%s</file>%s</xliff>%s' % (ind * 2, nl, ind, nl, nl))
    return ''.join(o).encode()
