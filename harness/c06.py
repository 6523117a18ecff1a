"""C06: a project that is open in yWriter is neither read nor written."""
import os
from .common import *
from . import gen

NAMES = ['prj', 'my novel', 'a.b', 'Ärger', 'x.yw7', 'lock', 'foo_manuscript', "it's"]
NEAR = ['{}.yw7.lck', '{}.lock', '{}.yw7_lock', '{}.yw7.lock2', 'x{}.yw7.lock', '{}.yw7.bak', '{}.yw7.lock.bak', '{}.yw7lock', '.yw7.lock', '{}x.yw7.lock']
OPS = ['read', 'write', 'write-new', 'import', 'export', 'read-write', 'import-notes', 'is_locked']


def gen_case(r):
    nm = r.choice(NAMES)
    op = r.choice(OPS)
    return {'name': nm, 'op': op, 'spec': gen.novel(r, n_ch=2, n_sc=2, nasty=0.05), 'spec2': gen.novel(r, n_ch=1, n_sc=2, nasty=0.05),
            'kind': r.choice(['file', 'file', 'empty', 'locked']), 'near': [x.format(nm) for x in r.sample(NEAR, r.randint(0, 4)) if x.format(nm) != f'{nm}.yw7.lock'],
            'backslash': r.random() < 0.1, 'late': r.random() < 0.5, 'ext': r.choice(['.YW7', '.Yw7', '.yW7']) if op.startswith(('read', 'write', 'is_')) and r.random() < 0.2 else '.yw7'}


def do(case, d, p, locked):
    from pywriter.yw.yw7_file import Yw7File
    from pywriter.pywriter_globals import Error
    from pywriter.converter.yw7_converter import Yw7Converter
    lock = p + '.lock'

    def place():
        if locked:
            with open(lock, 'w') as f:
                if case['kind'] == 'file':
                    f.write('x')
    op = case['op']
    if op != 'write-new':
        f0 = Yw7File(p)
        f0.novel = build_novel(case['spec'])
        f0.write()
    for n in case['near']:
        with open(os.path.join(d, n), 'w') as f:
            f.write('near')
    pp = p.replace('/', '\\') if case['backslash'] else p
    f = Yw7File(pp)
    if op == 'is_locked':
        place()
        need(bool(f.is_locked()) == locked, f'is_locked() is {f.is_locked()!r} with lock {locked}')
        return
    if op in ('import', 'import-notes'):
        from pywriter.odt_w.odt_w_scenedesc import OdtWSceneDesc
        e = OdtWSceneDesc(p[:-4] + '_scenes.odt')
        e.novel = build_novel(case['spec'])
        for s in e.novel.scenes.values():
            s.desc = 'changed'
        e.write()
        place()
        before = tree_state(d)
        conv = Yw7Converter()
        msgs = []
        conv.ui.set_info_how = msgs.append
        conv.run(p[:-4] + '_scenes.odt', suffix='_scenes')
        if locked:
            need(msgs and msgs[-1].startswith('!'), f'import into a locked project reported {msgs}')
            need(conv.newFile is None, 'newFile set although the project is locked')
            need(tree_state(d) == before, f'import into a locked project changed files: {set(tree_state(d).items()) ^ set(before.items())}')
        else:
            need(msgs and not msgs[-1].startswith('!'), f'import into an unlocked project failed: {msgs}')
        return
    if op == 'export':
        place()
        before = tree_state(d)
        conv = Yw7Converter()
        msgs = []
        conv.ui.set_info_how = msgs.append
        conv.run(p, suffix='_scenes')
        if locked:
            need(msgs and msgs[-1].startswith('!'), f'export of a locked project reported {msgs}')
            need(tree_state(d) == before, 'export of a locked project changed files')
        else:
            need(msgs and not msgs[-1].startswith('!'), f'export of an unlocked project failed: {msgs}')
        return
    f.novel = build_novel(case['spec2'])
    if op == 'read-write':
        f.novel = build_novel({'novel': {}, 'scenes': [], 'chapters': []})
        f.read()
        f.novel.title = 'changed'
    if op == 'read':
        f.novel = build_novel({'novel': {'title': 'mine', 'desc': 'my desc', 'authorName': 'me', 'languageCode': 'fr', 'countryCode': 'FR'}, 'scenes': [], 'chapters': []}) if case['late'] else f.novel
    place()
    before = tree_state(d)
    mem = dump_novel(f.novel)
    try:
        if op == 'read':
            f.read()
        else:
            f.write()
    except Error as ex:
        need(locked, f'{op} of an unlocked project raised {ex}')
        need(tree_state(d) == before, f'{op} of a locked project changed files')
        now = dump_novel(f.novel)
        for m in (now, mem):
            strip(m)
        need(now == mem, f'{op} of a locked project changed the novel: {diff(now, mem)}')
    else:
        need(not locked, f'{op} of a locked project did not fail')


def strip(m):
    for v in m.values():
        for e in (v if isinstance(v, list) else [v]):
            if isinstance(e, dict):
                e.pop('kwVar', None)


def check_case(case):
    for locked in (True, False):
        with scratch() as d:
            do(case, d, os.path.join(d, case['name'] + case.get('ext', '.yw7')), locked)


CASES = [('lock file', gen_case, check_case, 120)]
