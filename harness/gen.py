"""Random generation of JSON novel specs (deterministic in the given random.Random)."""
import re

WORDS = ['foo', 'Bar', 'lorem', 'ipsum', 'night', 'Ärger', 'señor', 'Straße', 'über', 'naïve', 'x', '42', "don't", 'co-op', 'été', '日本', '😀']
NASTY = ['&', '<', '>', '"', "'", '|', '&amp;', '&lt;', '&quot;', '&#65;', '&copy', '</b>', '<br>', '$', '$ID', '${Title}', '$$', '%', '\\', '\\n',
         '{0}', '[', ']', '[x]', '<Title>', '</Desc>', '<![CDATA[', ']]', '--', '—', '–', '…', '/', '#', '~', '*', '=', ';', ',', ':', '`', '\t', '\xa0', '<p>', '&&', '& &', '< >', '||', ']] ', ']]>', '@', '!']


def words(r, lo=1, hi=5):
    return ' '.join(r.choice(WORDS) for __ in range(r.randint(lo, hi)))


def line(r, nasty=0.3, lo=1, hi=6):
    """A trimmed non-empty line of text without doubled blanks."""
    t = []
    for __ in range(r.randint(lo, hi)):
        t.append(r.choice(NASTY) if r.random() < nasty else r.choice(WORDS))
    s = ''
    for w in t:
        s += (' ' if s and r.random() < 0.7 else '') + w
    s = s.replace('\t', ' ').replace('\xa0', ' ')
    while '  ' in s:
        s = s.replace('  ', ' ')
    s = s.strip() or 'x'
    return s


def odd_blanks(r, s, p=0.1):
    """Some blanks between letters become other space characters."""
    if r.random() < p:
        c = r.choice('\xa0\u2028\x85\u2009\u3000')
        s = re.sub(r'(?<=[a-zA-Z]) (?=[a-zA-Z])', lambda m: c if r.random() < 0.6 else ' ', s)
    return s


def multi(r, nasty=0.3, lo=1, hi=4):
    """Several lines; blank lines only inside."""
    ls = [line(r, nasty) for __ in range(r.randint(lo, hi))]
    out = [ls[0]]
    for l in ls[1:]:
        if r.random() < 0.2:
            out.append('')
        out.append(l)
    return '\n'.join(out)


def opt(r, f, p_none=0.25, p_empty=0.1):
    x = r.random()
    if x < p_none:
        return None
    if x < p_none + p_empty:
        return ''
    return f()


def tags(r, nasty=0.2):
    x = r.random()
    if x < 0.2:
        return None
    if x < 0.3:
        return []
    out = []
    for __ in range(r.randint(1, 3)):
        t = line(r, nasty, 1, 2).replace(';', '').strip()
        if t and t not in out:
            out.append(t)
    return out


def ids(r, n):
    out = []
    while len(out) < n:
        i = str(r.choice([r.randint(1, n + 3), r.randint(1, 120)]))
        if i not in out:
            out.append(i)
    return out


def subset(r, pool, p_none=0.3):
    if r.random() < p_none or not pool:
        return None if r.random() < 0.7 else []
    k = r.randint(0, len(pool))
    return r.sample(pool, k)


def plain_tail(s):
    return s


def novel(r, n_ch=None, n_sc=None, nasty=0.3, content=None, all_set=False, notes=True, custom=True):
    """content: callable r -> scene text."""
    content = content or (lambda r: multi(r, nasty, 0 + 1, 5))
    pn = 0.0 if all_set else 0.25
    pe = 0.0 if all_set else 0.1
    L = lambda: line(r, nasty)
    M = lambda: multi(r, nasty)
    o = lambda f: opt(r, f, pn, pe)
    nv = {}
    for a in ('title', 'authorName', 'fieldTitle1', 'fieldTitle2', 'fieldTitle3', 'fieldTitle4'):
        nv[a] = o(L)
    nv['desc'] = o(M)
    nv['authorBio'] = o(M)
    nv['wordTarget'] = r.choice([None, 0, 1, 50000, r.randint(0, 10**6)])
    nv['wordCountStart'] = r.choice([None, 0, 7, r.randint(0, 10**6)])
    lc, cc = r.choice([('en', 'US'), ('de', 'DE'), ('zxx', 'none'), ('fr', 'CA')])
    nv['languageCode'], nv['countryCode'] = lc, cc
    spec = {'novel': nv}
    for coll in ('characters', 'locations', 'items', 'projectNotes'):
        lst = []
        for i in ids(r, r.randint(0, 4)):
            e = {'id': i, 'title': o(L), 'desc': o(M)}
            if coll != 'projectNotes':
                e['image'] = o(L)
                e['aka'] = o(L)
                e['tags'] = tags(r)
                e['kwVar'] = {'Field_Link': o(L)} if custom and r.random() < 0.5 else {}
            if coll == 'characters':
                for a in ('notes', 'bio', 'goals'):
                    e[a] = o(M)
                e['fullName'] = o(L)
                e['isMajor'] = r.choice([True, False])
                if custom and r.random() < 0.5:
                    e['kwVar'].update({'Field_BirthDate': o(L), 'Field_DeathDate': o(L)})
            lst.append(e)
        if coll == 'projectNotes' and not notes:
            lst = []
        spec[coll] = lst
    n_ch = r.randint(0, 5) if n_ch is None else n_ch
    chids = ids(r, n_ch)
    scids = ids(r, r.randint(0, 9) if n_sc is None else n_sc)
    if not chids:
        scids = []
    spec['scenes'] = [scene(r, i, spec, o, L, M, content, custom) for i in scids]
    pool = list(scids)
    r.shuffle(pool)
    chs = []
    cuts = sorted(r.randint(0, len(pool)) for __ in range(max(0, n_ch - 1)))
    cuts = [0] + cuts + [len(pool)]
    types = {}
    for k, c in enumerate(chids):
        sc = pool[cuts[k]:cuts[k + 1]]
        t = r.choice([0, 0, 0, 1, 2, 3])
        title = o(L)
        if title and title.startswith('@'):
            title = 'x' + title
        ch = {'id': c, 'title': title, 'desc': o(M), 'chLevel': r.choice([0, 0, 1]), 'chType': t,
              'suppressChapterTitle': r.choice([True, False]), 'isTrash': r.choice([True, False, False]),
              'suppressChapterBreak': r.choice([True, False]), 'srtScenes': sc}
        chs.append(ch)
        if t:
            for s in sc:
                types[s] = t
    for s in spec['scenes']:
        if s['id'] in types:
            s['scType'] = types[s['id']]
    spec['chapters'] = chs
    return spec


def scene(r, i, spec, o, L, M, content, custom=True):
    e = {'id': i}
    e['title'] = o(L)
    for a in ('desc', 'notes', 'goal', 'conflict', 'outcome'):
        e[a] = o(M)
    e['image'] = o(L)
    for a in ('field1', 'field2', 'field3', 'field4'):
        e[a] = o(lambda: str(r.randint(1, 10)))
    for a in ('lastsDays', 'lastsHours', 'lastsMinutes'):
        e[a] = o(lambda: str(r.choice([0, 1, r.randint(0, 99)])))
    e['scType'] = r.choice([0, 0, 0, 1, 2, 3])
    e['doNotExport'] = r.choice([True, False, None, False])
    e['status'] = r.choice([1, 2, 3, 4, 5])
    e['tags'] = tags(r)
    for a in ('appendToPrev', 'isReactionScene', 'isSubPlot'):
        e[a] = r.choice([True, False, None])
    for a in ('characters', 'locations', 'items'):
        e[a] = subset(r, [x['id'] for x in spec[a]])
    e['date'] = e['time'] = e['day'] = None
    if r.random() < 0.8:
        # any combination of date, time of day, and day; a date excludes a day
        k = r.random()
        if k < 0.35:
            e['date'] = f'{r.randint(1, 2999):04}-{r.randint(1, 12):02}-{r.randint(1, 28):02}'
        elif k < 0.45:
            e['date'] = ''
        if not e['date']:
            e['day'] = r.choice([None, '', str(r.randint(-5, 400)), str(r.randint(-5, 400))])
        t = f'{r.randint(0, 23):02}:{r.randint(0, 59):02}'
        e['time'] = r.choice([None, '', t, f'{t}:00', f'{t}:{r.choice([0, 30, 59]):02}' if e['date'] else f'{t}:00'])
    e['scnArcs'] = r.choice([None, None, 'A', 'A;B', L() if custom else 'A'])
    e['scnMode'] = r.choice([None, 0, 1, 2, 5])
    e['sceneContent'] = None if r.random() < 0.1 else ('' if r.random() < 0.1 else content(r))
    return e
