"""C05: a failed or interrupted write never loses the previous file."""
import os, zipfile, io, re
from .common import *
from . import gen, faults

EXPORTS = None


def classes():
    global EXPORTS
    if EXPORTS is None:
        from pywriter.converter.yw7_converter import Yw7Converter
        EXPORTS = {c.__name__: c for c in Yw7Converter.EXPORT_TARGET_CLASSES}
        from pywriter.file.file_export import FileExport

        class TextExport(FileExport):
            DESCRIPTION = 'plain text'
            EXTENSION = '.txt'
            SUFFIX = '_txt'
            _fileHeader = 'Head $Title\n'
            _partTemplate = '# $Title\n'
            _chapterTemplate = '## $Title\n'
            _sceneTemplate = '$SceneContent\n'
            _fileFooter = 'Foot'
        EXPORTS['TextExport'] = TextExport
    return EXPORTS


def make_op(case, d):
    from pywriter.yw.yw7_file import Yw7File
    spec = case['spec']
    if case['kind'] == 'Yw7File':
        p = os.path.join(d, 'work', 'prj.yw7')

        def op():
            f = Yw7File(p)
            f.novel = build_novel(spec)
            if case.get('surrogate'):
                f.novel.title = 'bad \udc80 text'
            f.write()
    else:
        c = classes()[case['kind']]
        p = os.path.join(d, 'work', f'prj{c.SUFFIX or ""}{c.EXTENSION}')

        def op():
            f = c(p)
            f.novel = build_novel(spec)
            if case.get('surrogate'):
                f.novel.title = 'bad \udc80 text'
                for ch in f.novel.chapters.values():
                    ch.title = 'bad \udc80 text'
            f.write()
            del f
    return p, op


def norm(b):
    return re.sub(rb'/(a|r\d+)/work', b'/work', b)


def same(kind, a, b):
    if a is None or b is None:
        return a == b
    if kind in ('Yw7File', 'TextExport'):
        return a == b
    try:
        za, zb = zipfile.ZipFile(io.BytesIO(a)), zipfile.ZipFile(io.BytesIO(b))
        if za.namelist() != zb.namelist():
            return False
        return za.testzip() is None and all(norm(za.read(n)) == norm(zb.read(n)) for n in za.namelist() if n != 'meta.xml')
    except zipfile.BadZipFile:
        return False


KINDS = ['Yw7File', 'Yw7File', 'TextExport', 'OdtWManuscript', 'OdtWProof', 'OdsWSceneList', 'OdsWCharList', 'OdtWXref', 'OdtWExport', 'OdtWCharacters']


def gen_case(r):
    spec = gen.novel(r, n_ch=r.randint(1, 2), n_sc=r.randint(1, 3), nasty=0)
    return {'kind': r.choice(KINDS), 'spec': spec, 'exists': r.random() < 0.85, 'bak': r.random() < 0.5, 'surrogate': r.random() < 0.12, 'reads': r.random() < 0.6,
            'rlimit': [r.random() for __ in range(2)], 'ks': [r.random() for __ in range(8)]}


PREV = b'previous content \xc3\xa9\n' * 7


def setup(d, p, case):
    os.makedirs(os.path.join(d, 'work'))
    os.makedirs(os.path.join(d, 'tmp'))
    if case['exists']:
        with open(p, 'wb') as f:
            f.write(PREV)
    if case['bak']:
        with open(p + '.bak', 'wb') as f:
            f.write(b'old backup')
    with open(os.path.join(d, 'work', 'other.txt'), 'wb') as f:
        f.write(b'other')


def judge(case, d, p, res, new, label, restore_faulted):
    now, bak = read_bytes(p), read_bytes(p + '.bak')
    st = res['status']
    where = f'{label}: events {res["events"]}, result {st} {res.get("error", "")}'
    need(st in ('ok', 'error', 'crash'), f'{where}: unexpected end')
    if case['exists']:
        need(now == PREV or bak == PREV, f'{where}: previous content is neither at the path nor at .bak')
    if st == 'error' and case['exists'] and not restore_faulted:
        need(now == PREV, f'{where}: failed write did not put the previous file back')
    if st == 'ok':
        need(same(case['kind'], now, new), f'{where}: reported success, but the file is not complete')
        if case['exists']:
            need(bak == PREV, f'{where}: success, but .bak does not hold the previous content')
    if st != 'crash':
        need(os.listdir(os.path.join(d, 'tmp')) == [] or any(e[0] in ('os.remove', 'os.rmdir') for e in res['events'][-1:]), f'{where}: temporary directory left: {os.listdir(os.path.join(d, "tmp"))}')
        need(res.get('cwd') == os.getcwd(), f'{where}: working directory changed to {res.get("cwd")}')
    allowed = {os.path.basename(p), os.path.basename(p) + '.bak', 'other.txt'}
    need(set(os.listdir(os.path.join(d, 'work'))) <= allowed, f'{where}: stray files {os.listdir(os.path.join(d, "work"))}')
    need(read_bytes(os.path.join(d, 'work', 'other.txt')) == b'other', f'{where}: another file changed')


def check_case(case):
    with scratch() as d0:
        d = os.path.join(d0, 'a')
        p, op = make_op(case, d)
        setup(d, p, case)
        kinds = ('write', 'read') if case.get('reads') else ('write',)
        res = faults.run(op, d, kinds=kinds)
        new = read_bytes(p)
        if case['surrogate']:
            # (some documents do not carry the text in question)
            need(res['status'] in ('ok', 'error'), f'writing unencodable text ended with {res["status"]}')
            judge(case, d, p, res, new, 'unencodable text', False)
            return
        need(res['status'] == 'ok', f'fault-free write failed: {res}')
        judge(case, d, p, res, new, 'no fault', False)
        n = len(res['events'])
        ev = res['events']
        runs = []
        ks = sorted({1 + int(x * n) for x in case['ks']})
        # all events that touch the target or its backup, plus some of the others
        tgt = {os.path.relpath(p, d), os.path.relpath(p, d) + '.bak'}
        must = [i + 1 for i, e in enumerate(ev) if tgt & set(e[1:])]
        if case.get('reads') and must:
            # the calls between opening and closing the target (packing the components)
            must += [i + 1 for i in range(must[0], n) if ev[i][0] == 'open-r'][:12]
        for k in sorted(set(must) | set(must and [min(n, must[-1] + 1)]) | set(ks[:3])):
            runs.append(('crash', k, None))
            runs.append(('fail', k, None))
            if ev[k - 1][0] in ('open-w', 'open-r'):
                runs.append(('value', k, None))
        size = len(new)
        for x in case['rlimit']:
            runs.append(('limit', None, int(size * x * (1.1 if x > 0.5 else 0.6))))
        runs.append(('limit', None, size - 1))
        for i, (mode, k, lim) in enumerate(runs):
            d = os.path.join(d0, f'r{i}')
            p, op = make_op(case, d)
            setup(d, p, case)
            if mode == 'limit':
                res = faults.run(op, d, limit=lim)
                judge(case, d, p, res, new, f'file size limit {lim}', False)
            else:
                res = faults.run(op, d, mode=mode, k=k, kinds=kinds)
                hit = res['events'][k - 1] if len(res['events']) >= k else None
                rest = bool(hit and hit[0] == 'os.rename' and hit[1].endswith('.bak'))
                judge(case, d, p, res, new, f'{mode} at call {k} {hit}', rest)


CASES = [('faults and crashes', gen_case, check_case, 10)]
