"""The model of unknown words, and its use in tagging."""
import math
import tlib
from C25 import Other, checkchart
from plib import Gram
NEEDS = ['bit', 'containers', 'pcfg', 'plcfrs', 'probe']
OUTSIDE = ('Longer words and sentences, larger training sets; words with '
        'other characters than those in the alphabets considered; external '
        'taggers; suffix classes of the French model.')
LOW, UP = 'abcdefghijklmnopqrstuvwxyzé', 'ABCDEFGHIJKLMNOPQRSTUVWXYZÉ'


def among(ch, chars):
    """Whether a (symbolic) character is one of the given ones."""
    return any(ch == c for c in chars)


def features(ctx, word):
    """Decide the class of each character."""
    res = []
    for n in range(len(word)):
        ch = word[n]
        if among(ch, ctx.params['digits']):
            res.append('d')
        elif among(ch, ctx.params['uppers']):
            res.append('u')
        elif among(ch, ctx.params['lowers']):
            res.append('l')
        else:
            res.append(str(n))
    return res


def suffix(ctx, word, kinds, s):
    """Whether the word ends in s, ignoring case."""
    return len(word) >= len(s) and all(
            among(word[len(word) - len(s) + n], (c, c.upper()))
            for n, c in enumerate(s))


def has(word, chars):
    return any(among(word[n], chars) for n in range(len(word)))


def ref4(ctx, word, loc, lexicon, kinds):
    if not kinds:
        sig = '-S'
    elif kinds[0] == 'u':
        sig = '-AC' if 'l' not in kinds else '-SC' if loc == 0 else '-C'
    else:
        sig = '-L' if 'l' in kinds else '-U' if 'u' in kinds else '-S'
    if 'd' in kinds:
        sig += '-N' if set(kinds) == {'d'} else '-n'
    for ch, code in (('-', '-H'), ('.', '-P'), (',', '-C')):
        if has(word, [ch]):
            sig += code
    return '_UNK' + sig, len(word) > 3 and kinds[-1] in 'lu'


def refbase(ctx, word, loc, lexicon, kinds):
    sig = '-C' if kinds[0] == 'u' else '-c'
    if 'd' in kinds:
        sig += '-N' if set(kinds) == {'d'} else '-n'
    if has(word, ['-']):
        sig += '-H'
    if len(word) == 1:
        sig += '-P' if has(word, ['.']) else '-C' if has(word, [',']) else ''
    return '_UNK' + sig, len(word) > 3 and kinds[-1] in 'lu'


def ref6(ctx, word, loc, lexicon, kinds):
    caps = kinds.count('u')
    sig = ''
    if caps > 1:
        sig = '-CAPS'
    elif caps == 1 and loc:
        sig = '-CAP'
    elif caps == 1:
        sig = '-INITC'
        if any(word.lower() == x for x in lexicon):
            sig += '-KNOWNLC'
    elif 'l' in kinds:
        sig = '-LC'
    if 'd' in kinds:
        sig += '-NUM'
    dash = has(word, ['-'])
    if dash:
        sig += '-DASH'
    if len(word) >= 3 and suffix(ctx, word, kinds, 's'):
        if not among(word[len(word) - 2], 'siuSIU'):
            sig += '-s'
    elif len(word) >= 5 and not dash and not ('d' in kinds and caps):
        for s in ('ed', 'ing', 'ion', 'er', 'est', 'ly', 'ity', 'y', 'al'):
            if suffix(ctx, word, kinds, s):
                sig += '-' + s
                break
    return '_UNK' + sig, False


def signatures(ctx):
    """The signature of a word describes its capitalization, digits,
    punctuation and suffix."""
    p = ctx.params
    lx = ctx.mod('lexicon')
    word = ctx.string('w', p['alphabet'], p['lo'], p['hi'])
    if p.get('suffix'):
        word = word + ctx.pick('suffix', p['suffix'])
    loc = ctx.choice('loc', 2)
    known = ['zz', 'ab']
    model = p['model']
    got = lx.UNKNOWNWORDFUNC[model](word, loc, set(known))
    kinds = features(ctx, word)
    if model == 'ftb':
        # classes of suffixes are not considered
        tail = ''
        if 'd' in kinds:
            tail += '-NUM'
        if has(word[len(word) - 1:], ['s']):
            tail += '-PL'
        if all(among(word[n], p['punct']) for n in range(len(word))):
            tail += '-ISPUNC'
        elif has(word, p['punct']):
            tail += '-HASPUNC'
        if loc and kinds[0] == 'u':
            tail += '-UP'
        ctx.check(ctx.Or(*[got == '_UNK' + a + b + tail
                for a in ('', '-ADV', '-VB', '-NN') for b in ('', '-ADV')]),
                'signature')
        ctx.reach('ftb')
        return
    want, ending = {'4': ref4, '6': ref6, 'base': refbase}[model](
            ctx, word, loc, known, kinds)
    if ending:
        want = want + '-' + word[len(word) - 2:].lower()
        ctx.reach('ending')
    ctx.check(got == want, 'signature')
    ctx.reach('signature')
    ctx.observe(want)


def isnumber(word):
    """The token that replaces numbers."""
    n = len(word)
    digit = [among(word[i], '0123456789') for i in range(n)]
    if n == 4 and all(digit) and (among(word[0], '1')
            and among(word[1], '9') or among(word[0], '2')
            and among(word[1], '0')):
        return '1970'
    if not n or not digit[-1]:
        return None
    i = n
    while i > 0 and digit[i - 1]:
        i -= 1
    if i == 0 or among(word[i - 1], ",.'") and all(digit[:i - 1]):
        return '000'
    return None


def thesame(a, words):
    return any(a == b for b in words)


def corpus(ctx, p):
    """Tagged sentences with symbolic words."""
    words = [ctx.string('w', *p['word']) if a == '?' else
            ctx.string('w', a[1:], 1, 1) if a[0] == '?' else a
            for a in p['words']]
    tags = [ctx.pick('tag', a) if isinstance(a, (list, tuple)) else a
            for a in p['tags']]
    sents, i = [], 0
    for n in p['sents']:
        sents.append(list(zip(words[i:i + n], tags[i:i + n])))
        i += n
    return sents


def distinct(seq):
    res = []
    for a in seq:
        if not thesame(a, res):
            res.append(a)
    return res


def training(ctx):
    """Statistics of the training data, and the words that are replaced."""
    p = ctx.params
    lx = ctx.mod('lexicon')
    sents = corpus(ctx, p)
    unk = lx.UNKNOWNWORDFUNC[p['model']]
    # the alternatives of words that decide what happens
    tokens = [wt for sent in sents for wt in sent]
    numbers = [isnumber(w) for w, _ in tokens]
    threshold = ctx.pick('threshold', p['threshold'])
    openclass = ctx.pick('openclass', p['openclass'])
    model, msg = lx.getunknownwordmodel(sents, unk, threshold, openclass)
    sigs, words, lexicon, closed, tags, wordtags = model
    # word counts
    wtypes = distinct(w for w, _ in tokens)
    for w in wtypes:
        ctx.check(words[w] == sum(1 for x, _ in tokens if x == w),
                'frequency of words')
        for t in distinct(t for _, t in tokens):
            ctx.check(wordtags.get((w, t), 0) == sum(
                    1 for x, u in tokens if x == w and u == t),
                    'frequency of tagged words')
    ctx.check(len(words) == len(wtypes), 'words')
    for t in distinct(t for _, t in tokens):
        ctx.check(tags[t] == sum(1 for _, u in tokens if u == t),
                'frequency of tags')
    # open and closed class words

    def base(t):
        for i, c in enumerate(t):
            if c in '-[':
                return t[:i]
        return t

    closedref = []
    if openclass:
        for t in distinct(t for _, t in tokens):
            forms = distinct(w.lower() for w, u in tokens
                    if base(u) == base(t))
            if len(forms) < openclass:
                closedref += [w for w, u in tokens if u == t]
    closedref = distinct(closedref)
    ctx.check(len(closed) == len(closedref), 'number of closed class words')
    for w in closedref:
        ctx.check(w in closed, 'closed class word')
    # words that are kept
    keep = distinct([w for w in wtypes
            if sum(1 for x, _ in tokens if x == w) > threshold] + closedref)
    ctx.check(len(lexicon) == len(keep), 'number of known words')
    for w in keep:
        ctx.check(w in lexicon, 'known word')
    new = lx.replaceraretrainwords(sents, unk, lexicon)
    ctx.check([len(a) for a in new] == [len(a) for a in sents], 'lengths')
    used = []
    k = 0
    for sent, xsent in zip(sents, new):
        for n, ((w, _), x) in enumerate(zip(sent, xsent)):
            if numbers[k]:
                ctx.check(x == numbers[k], 'number')
                used.append(numbers[k])
                ctx.reach('number')
            elif thesame(w, keep):
                ctx.check(x == w, 'known words are kept')
            else:
                sig = unk(w, n, lexicon)
                ctx.check(x == sig, 'other words are replaced')
                used.append(sig)
                ctx.reach('rare')
            k += 1
    # signatures are those which are used
    for s in distinct(used):
        ctx.check(s in sigs, 'signature is counted')
        ctx.check(sigs[s] == sum(1 for x in used if x == s),
                'count of signature')
    ctx.check(len(sigs) == len(distinct(used)), 'signatures are used')
    # additional rules
    extra = lx.simplesmoothlexicon(model)
    tree = ctx.mod('tree')
    want = []
    for t in distinct(t for _, t in tokens):
        rule = ((t, 'Epsilon'), ('_UNK', ))
        ctx.check(rule in extra, 'each tag gets the unknown word')
        ctx.check(extra[rule] == 0.01, 'weight of the unknown word')
        want.append(rule)
    for w in wtypes:
        if not thesame(w, keep):
            for t in distinct(t for _, t in tokens):
                c = sum(1 for x, u in tokens if x == w and u == t)
                rule = ((t, 'Epsilon'), (tree.escape(w), ))
                ctx.check((rule in extra) == (c > 0), 'rare word')
                if c:
                    ctx.check(extra[rule] == c, 'weight of rare word')
                    want.append(rule)
    ctx.check(len(extra) == len(want), 'additional rules')
    ctx.reach('training')
    # new sentences only contain words that the grammar knows
    lexical = distinct([x for xsent in new for x in xsent]
            + [r[1][0] for r in want])
    test = ctx.string('new', *p['test'])
    loc = ctx.choice('loc', 2)
    num = isnumber(test)
    sent = (['zzz', test] if loc else [test])
    res = list(lx.replaceraretestwords(sent, unk, words, sigs))
    ctx.check(len(res) == len(sent), 'length of test sentence')
    out = res[loc]
    ctx.check(thesame(out, lexical), 'the result is part of the grammar')
    if num:
        if thesame(num, lexical):
            ctx.check(out == num, 'number')
    elif thesame(test, wtypes):
        ctx.check(out == test, 'known words are not changed')
        ctx.reach('known test word')
    elif thesame(test.lower(), wtypes):
        ctx.check(out == test.lower(), 'word in lower case')
        ctx.reach('lower case')
    else:
        sig = unk(test, loc, words)
        if thesame(sig, used):
            ctx.check(out == sig, 'signature of unknown word')
            ctx.reach('signature')
        else:
            ctx.check(out == '_UNK', 'default signature')
            ctx.reach('default')
    ctx.observe(len(used))


class Postagging(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def tagging(ctx):
    """Open class words are parsed with the tags of their signature as well,
    with a small part of the probability."""
    p = ctx.params
    rules = p['rules']
    lexicon = list(p['lexicon'])
    for a in p['maybelex']:
        if ctx.flag('lex'):
            lexicon.append(a)
    seen = [a for a, _ in lexicon]
    for r in rules:
        for a in r[1:]:
            ctx.assume(a in seen or any(a == r[0] for r in rules))
    n = len(rules) + len(lexicon)
    gr = Gram(ctx, rules, lexicon, fixed=[ctx.real('c', 0.25, 8)
            if m - len(rules) in p['symbolic']
            else ctx.real('c', 1 + m / 8., 1 + m / 8.) for m in range(n)])
    sent = [ctx.pick('w', p['words']) for _ in range(p['n'])]
    closed = set(a for a in p['closed'] if ctx.flag('closed'))
    tags = None
    if p.get('tags'):
        tags = [ctx.pick('t', [None] + list(p['tags'])) for _ in sent]

    def signature(word, n, lexicon):
        ctx.check(word == sent[n], 'position of word')
        return p['sigs'].get(word, '_UNK')
    post = Postagging(method='unknownword', closedclasswords=closed,
            unknownwordfun=signature, lexicon=set())
    plcfrs = p['parser'] == 'plcfrs'
    chart, msg = ctx.mod(p['parser']).parse(sent, gr.grammar, tags=tags,
            postagging=post, **({'exhaustive': True} if plcfrs else {}))
    lex2, costs2 = [], []
    ok = True
    for i, w in enumerate(sent):
        opened = closed and w not in closed and not w.startswith('_UNK')
        tag = tags[i] if tags else None
        got = []
        if tag:
            opened = False
        words = [x for _, x in gr.lexicon]
        look = w if w in words else w.lower()
        for m, (t, x) in enumerate(gr.lexicon):
            if x == look and (not tag or t == tag):
                got.append((t, gr.lexcost[m] - (math.log(0.999)
                        if opened else 0)))
        if opened:
            for m, (t, x) in enumerate(gr.lexicon):
                if x == p['sigs'].get(w, '_UNK') and all(
                        t != y for y, _ in got):
                    got.append((t, gr.lexcost[m] - math.log(0.001)))
                    ctx.reach('signature')
        if tag and not got and tag in [t for t, _ in gr.lexicon]:
            got.append((tag, 0))
        ok = ok and got
        for t, c in got:
            lex2.append((t, i))
            costs2.append(c)
    if not ok:
        ctx.check(not chart, 'no parse without tag')
        ctx.check('no parse' in msg, 'message')
        ctx.reach('no tag')
        return
    gr2 = Other(gr, lex2, costs2)
    ids = list(range(len(sent)))
    if plcfrs:
        from C26 import checkchart as check2, closure as closure2
        edges = closure2(gr2, ids)
        check2(ctx, gr2, chart, ids, edges)
    else:
        from C25 import closure
        checkchart(ctx, gr2, chart, ids, closure(gr2, ids))
    ctx.reach('tagging')
    ctx.observe(len(lex2))


SIGPARAMS = dict(digits='0123456789', uppers='ABCDEFGHIJKLMNOPQRSTUVWXYZÉ',
        lowers='abcdefghijklmnopqrstuvwxyzé', punct='-.,')
RULES = [('S', 'A', 'B'), ('S', 'B', 'A'), ('S', 'A', 'A'), ('S', 'X', 'A'),
        ('X', 'A', 'B')]

HARNESSES = {
    'signatures': dict(fn=signatures, reach=['signature'], params=dict(
        quick=[dict(SIGPARAMS, model='4', alphabet='aZ3-.', lo=0, hi=3),
            dict(SIGPARAMS, model='4', alphabet='aZ3日', lo=3, hi=4),
            dict(SIGPARAMS, model='4', alphabet='aÉ,', lo=4, hi=4),
            dict(SIGPARAMS, model='base', alphabet='aZ3-.', lo=1, hi=3),
            dict(SIGPARAMS, model='base', alphabet='aÉ3,', lo=4, hi=4),
            dict(SIGPARAMS, model='6', alphabet='aZ3-b', lo=0, hi=3),
            dict(SIGPARAMS, model='6', alphabet='sUZ3', lo=2, hi=4),
            dict(SIGPARAMS, model='6', alphabet='aZ3-', lo=2, hi=3,
                suffix=['ed', 'ing', 'ion', 'er', 'est', 'ly', 'ity', 'y',
                    'al', 'iED', 's', 'us', 'ess']),
            ],
        thorough=[dict(SIGPARAMS, model='4', alphabet='aZ3-.,', lo=0, hi=5),
            dict(SIGPARAMS, model='base', alphabet='aZ3-.', lo=1, hi=5),
            dict(SIGPARAMS, model='6', alphabet='aZ3-sy', lo=0, hi=5)])),
    'french': dict(fn=signatures, reach=['ftb'], params=dict(
        quick=[dict(SIGPARAMS, model='ftb', alphabet='aZ3-s', lo=1, hi=3)],
        thorough=[dict(SIGPARAMS, model='ftb', alphabet='aZ3-s.,t', lo=1,
            hi=4)])),
    'training': dict(fn=training, reach=['training', 'number', 'rare',
        'known test word', 'lower case', 'signature', 'default'],
        params=dict(
        quick=[dict(model='4', word=('aA1', 1, 1), words=['?', '?', 'a'],
            tags=['N', ['N', 'D'], 'N-X'], sents=[2, 1], threshold=[1],
            openclass=[0, 2], test=('aA1.', 1, 2)),
            dict(model='6', word=('a1,', 1, 2), words=['?', 'b', '?a('],
            tags=['N', 'D', 'N'], sents=[3], threshold=[1, 2],
            openclass=[2], test=('1aA-', 1, 2))],
        thorough=[dict(model='4', word=('aA1', 1, 2),
            words=['?', '?', '?', 'a'], tags=['N', ['N', 'D'], 'D', 'N-X'],
            sents=[2, 2], threshold=[1, 2], openclass=[0, 1, 2],
            test=('aA1.', 1, 2))])),
    'tagging': dict(fn=tagging, reach=['tagging', 'signature', 'no tag'],
        params=dict(
        quick=[dict(parser=parser, rules=RULES, lexicon=[('A', 'a'),
            ('B', '_UNK'), ('A', '_UNK-x')], maybelex=[('B', 'a'),
            ('B', '_UNK-x')], words=['a', 'b', 'A', '_UNK-x'],
            symbolic=[0, 2], sigs={'a': '_UNK-x', 'A': '_UNK-y'}, closed=['a', 'c'], n=2)
            for parser in ('pcfg', 'plcfrs')]
            + [dict(parser=parser, rules=RULES, lexicon=[('A', 'a'),
            ('B', '_UNK')], maybelex=[('B', 'a')], words=['a', 'b'],
            symbolic=[0, 1], sigs={}, closed=['c'], tags=['A', 'B'], n=2)
            for parser in ('pcfg', 'plcfrs')],
        thorough=[dict(parser=parser, rules=RULES, lexicon=[('A', 'a'),
            ('B', '_UNK'), ('A', '_UNK-x')], maybelex=[('B', 'a'),
            ('B', '_UNK-x'), ('B', 'b')], words=['a', 'b', 'A', '_UNK-x'],
            symbolic=[0, 2], sigs={'a': '_UNK-x', 'A': '_UNK-y'}, closed=['a', 'c'], n=3)
            for parser in ('pcfg', 'plcfrs')])),
}
