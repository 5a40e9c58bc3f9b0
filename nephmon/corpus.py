"""Corpus generator and reference model (definition level) for the corpus pipeline.

The model never uses nephosem: it works on decoded lines with its own segmentation.
"""
import os
import re
from collections import Counter, defaultdict

WORDS = ['walk', 'Walks', 'run', 'ran', 'the', 'cat', 'dog', 'café', 'naïve', 'Übung', 'x', 'a', 'b', "o'clock", 'e-mail', 'and/or']
LEMMAS = ['walk', 'run', 'the', 'and/or', 'cat', 'dog', 'café', 'uebung', 'x', 'a', "o'clock"]
POSS = ['V', 'N', 'NN', 'DT', 'adj']


class Spec(object):
    """One corpus with settings; everything needed to rebuild it deterministically."""
    pass


FORMATS = [
    # (columns, separator in file, line-machine)
    (('word', 'pos', 'lemma'), '\t', r'([^\t]+)\t([^\t]+)\t([^\t]+)'),
    (('word', 'lemma', 'pos'), '\t', r'([^\t]+)\t([^\t]+)\t([^\t]+)'),
    (('lemma', 'word', 'pos'), '\t', r'^([^\t]+)\t([^\t]+)\t([^\t]+)$'),
    (('word', 'pos', 'lemma', 'extra'), '\t', r'([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)'),
    (('extra', 'word', 'pos', 'lemma'), '\t', r'([^\t]+)\t([^\t]+)\t([^\t]+)\t([^\t]+)'),
    (('word', 'pos', 'lemma'), ' ', r'(\S+) (\S+) (\S+)$'),
]
TYPES = ['lemma/pos', 'lemma', 'word', 'word/pos', 'pos/lemma', 'word/lemma/pos']
COLLOCS = [None, 'lemma/pos', 'lemma', 'word', 'word/pos']
TOKENS = ['word/pos/fid/lid', 'lemma/pos/fid/lid', 'lemma/fid/lid', 'word/lemma/pos/fid/lid', 'pos/word/fid/lid']


def make_settings(rng, root, simple=False):
    cols, sep, lm = FORMATS[0] if simple else rng.choice(FORMATS)
    s = {
        'line-machine': lm,
        'type': rng.choice(TYPES), 'token': rng.choice(TOKENS),
        'boundary-detection-mechanism': 'single',
        'left-span': rng.choice([0, 1, 1, 2, 2, 3, 4, 10]), 'right-span': rng.choice([0, 1, 1, 2, 2, 3, 4, 10]),
        'corpus-path': root,
    }
    s[rng.choice(['line-format', 'global-columns'])] = ','.join(cols)
    c = rng.choice(COLLOCS)
    if c:
        s['colloc'] = c
    sepm = rng.choice([r'</artikel>', r'<[^>]+>$', r'</?s>', r'#END'])
    which = rng.choice(['both', 'both', 'sep', 'single'])
    if which != 'single':
        s['separator-line-machine'] = sepm
    if which != 'sep':
        s['single-boundary-machine'] = sepm
    if sepm == r'</?s>' and rng.random() < 0.5:  # the same lines, as boundaries on both sides
        s.update({'boundary-detection-mechanism': 'left-right', 'left-boundary-machine': '<s>', 'right-boundary-machine': '</s>'})
        s.pop('separator-line-machine', None)
        s.pop('single-boundary-machine', None)
    enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'latin-1', 'cp1252', 'utf-16', None])
    if enc:
        s['file-encoding'] = enc
    return s, cols, sep


SEP_LINES = {r'</artikel>': ['</artikel>', '</artikel> '], r'<[^>]+>$': ['</s>', '<p id=3>', '<s>'],
             r'</?s>': ['<s>', '</s>'], r'#END': ['#END', '#ENDING']}
JUNK = ['', '   ', 'junk', 'one two', '<!-- -->', '\t', '### 1', 'junk</s>', 'x <s>', 'no #END', 'a </artikel>']


def sep_machine(settings):
    if settings['boundary-detection-mechanism'] == 'left-right':
        return r'</?s>'
    return settings.get('separator-line-machine') or settings['single-boundary-machine']


CONTROL = ['\x0b', '\x0c', '\x1c', '\x1d', '\x1e', '\x85', '\u2028', '\u2029', '\xa0']


def gen_lines(rng, settings, cols, sep, vocab_size, n_lines, p_sep=0.12, p_junk=0.08, large=0):
    lines = []
    odd = rng.random() < 0.15          # characters that only str.splitlines takes for an end of line
    wide = (settings.get('file-encoding') or 'utf-8').startswith('utf')
    words, lemmas, poss = WORDS[:vocab_size + 2], LEMMAS[:vocab_size], POSS[:max(1, vocab_size // 2)]
    while len(lines) < n_lines:
        x = rng.random()
        if x < p_sep:
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                lines.append(rng.choice(SEP_LINES[sep_machine(settings)]))
        elif x < p_sep + p_junk:
            lines.append(rng.choice(JUNK))
        else:
            for _ in range(rng.choice([1, 1, 2, 3, 5])):
                d = {'word': rng.choice(words), 'lemma': rng.choice(lemmas), 'pos': rng.choice(poss),
                     'extra': rng.choice(['q', 'zz'])}
                if large and rng.random() < .8:      # a vocabulary of thousands of types
                    d['lemma'], d['word'] = 'x%d' % rng.randrange(large), 'X%d' % rng.randrange(large)
                if odd and rng.random() < 0.3:
                    k = rng.choice(['word', 'lemma', 'lemma'])
                    ch = rng.choice([x for x in CONTROL if wide or x < '\x80'])
                    if not (sep == ' ' and ch.isspace()):
                        d[k] = d[k][:1] + ch + d[k][1:] + 'e'
                if rng.random() < 0.02:          # a word that looks like a boundary is a word
                    d['word'] = rng.choice(['<s>', '</s>', '</artikel>', '#END'])
                l = sep.join(d[c] for c in cols)
                if rng.random() < 0.03:          # more columns than the machine reads (or a line that it does not take)
                    l += sep + rng.choice(['more', 'V', '</s>'])
                if rng.random() < 0.03:
                    l = rng.choice([' ', '']) + l + rng.choice([' ', '  '])
                lines.append(l)
    return lines[:n_lines] if n_lines else []


def write_corpus(rng, root, settings, cols, sep, n_files, max_lines=40, vocab_size=5, large=0):
    """Write files; returns list of absolute paths (unique stems)."""
    paths = []
    enc = settings.get('file-encoding', 'utf-8')
    stems = set()
    while len(paths) < n_files:
        sub = rng.choice(['', '', '', 'a', 'b/c', 'sub dir', 'a/d', '.h', 'v1.0'])
        stem = rng.choice(['f%d', 'doc.%d', 'Ünï%d', '%d', 'x y%d', 'no#%d', '.hid%d', 'a,b;%d', '[x]*%d', "it's~%d", '-100%%%d']) % rng.randrange(100)
        if (sub, stem) in stems:
            continue
        stems.add((sub, stem))
        ext = rng.choice(['.txt', '.conll', '', '.tsv', '.txt~', '.bak'])
        if '.' in stem and ext == '':
            ext = '.txt'
        d = os.path.join(root, sub) if sub else root
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, stem + ext)
        # distinct fid required: splitext of the path relative to the corpus root
        if any(os.path.splitext(q)[0] == os.path.splitext(p)[0] for q in paths):
            continue
        kind = rng.random()
        n = 0 if kind < 0.06 else rng.randrange(1, 7) if kind < 0.45 else rng.randrange(1, max_lines + 1)
        big = large if len(paths) == n_files // 2 else 0
        lines = gen_lines(rng, settings, cols, sep, vocab_size, 3 * big or n,
                          p_sep=rng.choice([0.0, 0.05, 0.12, 0.3]), p_junk=rng.choice([0, 0.08, 0.2]), large=big)
        nl = rng.choice(['\n', '\n', '\r\n'])
        text = nl.join(lines)
        if rng.random() < 0.6 and lines:
            text += nl
        with open(p, 'wb') as f:
            f.write(text.encode(enc))
        paths.append(p)
    return paths


class Item(object):
    __slots__ = ('cols', 'lid')

    def __init__(self, cols, lid):
        self.cols, self.lid = cols, lid

    def fmt(self, f):
        return '/'.join(self.cols[c] for c in f.split('/'))


class Model(object):
    def __init__(self, settings):
        self.s = settings
        self.cols = (settings.get('global-columns') or settings.get('line-format')).split(',')
        self.enc = settings.get('file-encoding', 'utf-8')
        self.lm = re.compile(settings['line-machine'])
        self.sm = re.compile(sep_machine(settings))
        self.type_fmt = settings['type']
        self.colloc_fmt = settings.get('colloc') or settings['type']
        self.token_fmt = settings['token']
        self.L = settings['left-span']
        self.R = settings['right-span']

    def segments(self, path):
        """list of segments, each a list of Item"""
        with open(path, 'rb') as f:
            text = f.read().decode(self.enc)
        segs, cur = [], []
        for lid, line in enumerate(text.replace('\r\n', '\n').split('\n'), 1):
            line = line.strip()
            m = self.lm.match(line)
            if m:
                cur.append(Item({c: m.group(i + 1) for i, c in enumerate(self.cols)}, lid))
            elif self.sm.match(line):
                segs.append(cur)
                cur = []
        segs.append(cur)
        return [s for s in segs if s]

    def fid(self, path):
        rel = os.path.relpath(path, self.s.get('corpus-path'))  # relative to the current directory when no corpus directory is set
        return os.path.splitext(rel)[0]

    # ---- reference results
    def freq(self, paths):
        c = Counter()
        for p in paths:
            for seg in self.segments(p):
                for it in seg:
                    c[it.fmt(self.type_fmt)] += 1
        return dict(c)

    def cooc(self, paths, rows=None, cols=None):
        c = Counter()
        for p in paths:
            for seg in self.segments(p):
                ty = [it.fmt(self.type_fmt) for it in seg]
                co = [it.fmt(self.colloc_fmt) for it in seg]
                for i in range(len(seg)):
                    if rows and ty[i] not in rows:
                        continue
                    for j in range(len(seg)):
                        if j != i and -self.L <= j - i <= self.R:
                            if cols and co[j] not in cols:
                                continue
                            c[ty[i], co[j]] += 1
        return dict(c)

    def tokens(self, paths, queries, cols=None):
        """{type: {token string: (left [(colloc, lid)], right [(colloc, lid)])}} as multiset lists"""
        out = {q: [] for q in queries}
        for p in paths:
            fid = self.fid(p)
            for seg in self.segments(p):
                co = [it.fmt(self.colloc_fmt) for it in seg]
                for i, it in enumerate(seg):
                    t = it.fmt(self.type_fmt)
                    if t not in out:
                        continue
                    d = dict(it.cols, fid=fid, lid=str(it.lid))
                    tok = '/'.join(d[c] for c in self.token_fmt.split('/'))
                    left = [(co[j], seg[j].lid) for j in range(max(0, i - self.L), i)
                            if not cols or co[j] in cols]
                    right = [(co[j], seg[j].lid) for j in range(i + 1, min(len(seg), i + self.R + 1))
                             if not cols or co[j] in cols]
                    out[t].append((tok, fid, it.lid, tuple(left), tuple(right)))
        return out

    def n_items(self, paths):
        return sum(len(s) for p in paths for s in self.segments(p))
