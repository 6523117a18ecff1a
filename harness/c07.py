"""C07: every conversion ends with exactly one verdict and never overwrites unasked."""
import os, zipfile, stat
from unittest import mock
from .common import *
from . import gen

SUFFIXES = None


class RecUi:
    def __init__(self, answer=True):
        self.how, self.what, self.asked, self.warned = [], [], [], []
        self.answer = answer

    def ask_yes_no(self, text):
        self.asked.append(text)
        return self.answer

    def set_info_how(self, message):
        self.how.append(message)

    def set_info_what(self, message):
        self.what.append(message)

    def show_warning(self, message):
        self.warned.append(message)


EXPORT_SFX = ['', '_proof', '_manuscript', '_brf_synopsis', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations', '_charlist', '_loclist', '_itemlist',
              '_scenelist', '_xref', '_notes', '_todo']
IMPORT_SFX = ['_proof', '_manuscript', '_scenes', '_chapters', '_parts', '_characters', '_items', '_locations', '_charlist', '_loclist', '_itemlist', '_scenelist', '_notes', '_todo']
ODS = ['_charlist', '_loclist', '_itemlist', '_scenelist']
CORRUPT = ['none', 'none', 'none', 'garbage', 'empty', 'truncated', 'badxml', 'noxml', 'dir', 'partialxml', 'missing']
KINDS = ['export', 'export', 'import', 'import', 'create', 'create', 'unknown', 'missing', 'direct-create', 'direct-import', 'direct-export', 'twice']


def gen_case(r):
    return {'kind': r.choice(KINDS), 'esfx': r.choice(EXPORT_SFX + ['_nope', None]), 'isfx': r.choice(IMPORT_SFX), 'corrupt': r.choice(CORRUPT), 'exists': r.random() < 0.6,
            'answer': r.random() < 0.7, 'bakdir': r.random() < 0.2, 'bak': r.random() < 0.3, 'locked': r.random() < 0.12, 'tgtdir': r.random() < 0.08, 'noprj': r.random() < 0.15,
            'spec': gen.novel(r, n_ch=r.randint(0, 2), n_sc=r.randint(0, 3), nasty=0.1), 'first': r.random() < 0.5,
            'name': r.choice(['prj', 'a_b', 'x.y', '_xref', 'my_brf_synopsis', "it's", 'doc!', '!x', 'a\udcff', '\udce4b']), 'notemp': r.random() < 0.05, 'outline': r.random() < 0.5,
            'conv': r.choice(['Yw7Converter'] * 4 + ['Yw7Exporter', 'Yw7Importer']), 'split': r.random() < 0.3, 'rlimit': r.random()}


def damage(p, how):
    b = read_bytes(p)
    if how == 'none':
        return
    if how == 'garbage':
        b = b'\x00\xff\xfegarbage<<<'
    elif how == 'empty':
        b = b''
    elif how == 'truncated':
        b = b[:len(b) // 2]
    elif how == 'missing':
        os.remove(p)
        return
    elif how == 'dir':
        os.remove(p)
        os.mkdir(p)
        return
    elif zipfile.is_zipfile(p):
        with zipfile.ZipFile(p) as z:
            parts = {n: z.read(n) for n in z.namelist()}
        if how == 'noxml':
            parts.pop('content.xml', None)
        elif how == 'badxml':
            parts['content.xml'] = b'<office:document-content><unclosed>' + parts['content.xml'][:200]
        else:
            parts['content.xml'] = parts['content.xml'][:int(len(parts['content.xml']) * 0.7)]
        with zipfile.ZipFile(p, 'w') as z:
            for n in parts:
                z.writestr(n, parts[n])
        return
    else:
        b = b.replace(b'<SCENES', b'<SCENE') if how != 'noxml' else b'<?xml version="1.0" encoding="utf-8"?>\n<OTHER></OTHER>'
    with open(p, 'wb') as f:
        f.write(b)


def expected_target(case, src, direction):
    base = os.path.splitext(src)[0]


def judge(ui, conv, target, before_bytes, label, asked_ok=True, may_write=True):
    need(len(ui.how) == 1, f'{label}: {len(ui.how)} result messages: {ui.how}')
    m = ui.how[0]
    if m.startswith('!'):
        need(conv.newFile is None, f'{label}: failure {m!r}, but newFile is {conv.newFile!r}')
        if target is not None:
            need(state(target) == before_bytes, f'{label}: failure {m!r}, but the target has changed')
        return False
    need(conv.newFile is not None, f'{label}: success {m!r}, but newFile is None')
    need(os.path.isfile(conv.newFile), f'{label}: success {m!r}, but {conv.newFile!r} does not exist')
    need(os.path.normpath(conv.newFile) in m, f'{label}: message {m!r} does not name {conv.newFile!r}')
    if target is not None:
        need(os.path.normpath(conv.newFile) == os.path.normpath(target), f'{label}: wrote {conv.newFile!r}, expected {target!r}')
    if before_bytes not in (None, 'dir'):
        need(len(ui.asked) >= 1, f'{label}: existing target overwritten without asking')
        need(ui.answer, f'{label}: existing target overwritten although the user refused')
    return True


def state(p):
    return 'dir' if os.path.isdir(p) else read_bytes(p)


def make_yw7(p, spec):
    from pywriter.yw.yw7_file import Yw7File
    f = Yw7File(p)
    f.novel = build_novel(spec)
    f.write()


def make_doc(d, name, sfx, spec, split=False):
    from pywriter.converter.yw7_converter import Yw7Converter
    cls = {c.SUFFIX: c for c in Yw7Converter.EXPORT_TARGET_CLASSES}[sfx]
    p = os.path.join(d, f'{name}{sfx}{cls.EXTENSION}')
    e = cls(p)
    e.novel = build_novel(spec)
    if split:
        for s in e.novel.scenes.values():
            s.sceneContent = 'a\n### New scene\nb'
    e.write()
    return p


def check_case(case):
    from pywriter.converter.yw7_converter import Yw7Converter
    from pywriter.converter.yw7_exporter import Yw7Exporter
    from pywriter.converter.yw7_importer import Yw7Importer
    convs = {'Yw7Converter': Yw7Converter, 'Yw7Exporter': Yw7Exporter, 'Yw7Importer': Yw7Importer}
    with scratch() as d0:
        d = os.path.join(d0, 'w')
        os.mkdir(d)
        name = case['name']
        conv = convs[case['conv']]()
        ui = conv.ui = RecUi(case['answer'])
        prj = os.path.join(d, name + '.yw7')
        kind = case['kind']
        suffix = case['esfx']
        target = None
        if case['first']:
            conv.newFile = 'stale'
        if kind in ('export', 'direct-export', 'twice'):
            make_yw7(prj, case['spec'])
            if suffix not in (None, '_nope'):
                ext = '.ods' if suffix in ODS else '.odt'
                target = os.path.join(d, f'{name}{suffix}{ext}')
            src = prj
            damage(prj, case['corrupt'])
        elif kind in ('import', 'direct-import'):
            suffix = case['isfx']
            src = make_doc(d, name, suffix, case['spec'], case['split'])
            target = prj
            if not case['noprj']:
                make_yw7(prj, case['spec'])
                if case['corrupt'] == 'partialxml':
                    damage(prj, 'truncated')
            damage(src, case['corrupt'])
        elif kind in ('create', 'direct-create'):
            sp = dict(case['spec'])
            src = make_doc(d, name, '', sp)
            if case['outline']:
                with zipfile.ZipFile(src) as z:
                    parts = {n: z.read(n) for n in z.namelist()}
                parts['content.xml'] = parts['content.xml'].replace(b'</office:text>', b'<text:h text:style-name="Heading_20_2" text:outline-level="2">Ch</text:h><text:h text:style-name="Heading_20_3" text:outline-level="3">Sc</text:h><text:p>x</text:p></office:text>')
                with zipfile.ZipFile(src, 'w') as z:
                    for n in parts:
                        z.writestr(n, parts[n])
            damage(src, case['corrupt'])
            target = prj
            if case['exists']:
                with open(prj, 'wb') as f:
                    f.write(b'existing project')
        else:
            src = os.path.join(d, name + ('.doc' if kind == 'unknown' else '.yw7'))
            if kind == 'unknown':
                with open(src, 'w') as f:
                    f.write('x')
        if kind in ('export', 'direct-export', 'twice') and target and case['exists']:
            with open(target, 'wb') as f:
                f.write(b'existing document' if case['bak'] else b'')
        if case['locked']:
            open(prj + '.lock', 'w').close()
        if target and os.path.isfile(target):
            if case['bakdir']:
                os.makedirs(os.path.join(target + '.bak', 'sub'))
            elif case['bak']:
                with open(target + '.bak', 'wb') as f:
                    f.write(b'old')
        elif target and case['tgtdir'] and not os.path.exists(target):
            os.mkdir(target)
        before = state(target) if target else None
        cwd = os.getcwd()
        tree0 = tree_state(d)
        label = f'{case["conv"]} {kind} {os.path.basename(src)} suffix {suffix!r} corrupt={case["corrupt"]} exists={before is not None} answer={case["answer"]}'
        if case['notemp'] and not kind.startswith('direct'):
            fail = mock.patch('tempfile.mkdtemp', side_effect=OSError(28, 'No space left on device'))
        else:
            fail = contextlib.nullcontext()
        if kind == 'direct-export':
            s = pick(Yw7Converter.EXPORT_SOURCE_CLASSES, src)
            t = pick(Yw7Converter.EXPORT_TARGET_CLASSES, target or os.path.join(d, 'bad.name'))
            conv.export_from_yw(s, t)
            target = t.filePath
        elif kind == 'direct-import':
            s = pick(Yw7Converter.IMPORT_SOURCE_CLASSES, src)
            t = pick(Yw7Converter.IMPORT_TARGET_CLASSES, target)
            conv.import_to_yw(s, t)
        elif kind == 'direct-create':
            from pywriter.odt_r.odt_r_import import OdtRImport
            from pywriter.odt_r.odt_r_outline import OdtROutline
            s = (OdtROutline if case['outline'] else OdtRImport)(src)
            t = pick(Yw7Converter.IMPORT_TARGET_CLASSES, target)
            conv.newFile = None
            if case['notemp']:
                t = pick(Yw7Converter.IMPORT_TARGET_CLASSES, src)  # a target with the wrong kind of name
                target = None
            conv.create_yw7(s, t)
        else:
            with fail:
                conv.run(src, suffix=suffix)
        ok = judge(ui, conv, target, before, label)
        need(os.getcwd() == cwd, f'{label}: working directory changed')
        if not ok:
            now = tree_state(d)
            lost = [k for k in tree0 if k not in now and not k.endswith('.bak')]
            need(not lost, f'{label}: failed, and files vanished: {lost}')
        healthy = case['corrupt'] == 'none' and not case['notemp'] and not case['locked'] and not case['bakdir'] and before != 'dir' and case['conv'] == 'Yw7Converter'
        if healthy and kind in ('export', 'direct-export', 'twice') and suffix not in (None, '_nope'):
            need(ok == (before is None or case['answer']), f'{label}: verdict {ui.how}')
        if healthy and kind in ('import', 'direct-import') and name not in ('_xref', 'my_brf_synopsis'):
            if case['noprj']:
                need(not ok or kind == 'direct-import', f'{label}: verdict {ui.how}')
            else:
                need(ok == case['answer'], f'{label}: verdict {ui.how}')
        if kind in ('create', 'direct-create'):
            if before is not None:
                need(not ok, f'{label}: project created although it exists')
            elif healthy and not (kind == 'create' and name in ('_xref', 'my_brf_synopsis')):
                need(ok, f'{label}: verdict {ui.how}')
        if kind in ('unknown', 'missing'):
            need(not ok, f'{label}: verdict {ui.how}')
            need(tree_state(d) == tree0, f'{label}: files changed')
        if kind == 'import' and ok and case['corrupt'] == 'none':
            pass
        if kind == 'twice' and ok:
            # A failure after a success must not keep the old newFile.
            ui.how.clear()
            conv.run(os.path.join(d, 'nothing.yw7'), suffix=suffix)
            judge(ui, conv, None, None, label + ' then missing file')
            need(conv.newFile is None, 'newFile kept from an earlier conversion')


def pick(classes, path):
    best = None
    for c in classes:
        if path and path.endswith(f'{c.SUFFIX or ""}{c.EXTENSION}'):
            if best is None or len(c.SUFFIX or '') > len(best.SUFFIX or ''):
                best = c
    return (best or classes[-1])(path)


# ------------------------------------------------------------------ user interfaces
MSG = ['!failed', '! failed', 'File written: "a!b".', '!bad! twice!', '!', '', 'ok', '!!x', 'x!', ' !x', '!Lock: "p.yw7"', '!äöü\nzwei']


def gen_ui(r):
    return {'msg': r.choice(MSG) if r.random() < 0.6 else ''.join(r.choice('!! ab\n"x') for __ in range(r.randint(0, 8))), 'ui': r.choice(['Ui', 'UiCmd', 'UiMb', 'UiTk', 'MainTk'])}


def check_ui(case):
    m = case['msg']
    fail = m.startswith('!')
    core = m[1:].strip() if fail else m
    k = case['ui']
    if k in ('Ui', 'UiCmd'):
        if k == 'Ui':
            from pywriter.ui.ui import Ui as U
        else:
            from pywriter.ui.ui_cmd import UiCmd as U
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            u = U('title')
            u.set_info_what('what')
            out.truncate(0); out.seek(0)
            u.set_info_how(m)
        want = f'FAIL: {core}' if fail else m
        need(u.infoHowText == want, f'{k}: message {m!r} shown as {u.infoHowText!r}')
        if k == 'UiCmd':
            need(out.getvalue() == want + '\n', f'{k}: message {m!r} printed as {out.getvalue()!r}')
        else:
            need((want in err.getvalue()) if fail else (err.getvalue() == ''), f'{k}: message {m!r}: stderr {err.getvalue()!r}')
        return
    import importlib
    mod = importlib.import_module({'UiMb': 'pywriter.ui.ui_mb', 'UiTk': 'pywriter.ui.ui_tk', 'MainTk': 'pywriter.ui.main_tk'}[k])
    tk, mb = mock.MagicMock(), mock.MagicMock()
    with mock.patch.object(mod, 'tk', tk), mock.patch.object(mod, 'messagebox', mb):
        u = getattr(mod, k)('title')
        tk.reset_mock()
        mb.reset_mock()
        u.set_info_how(m)
        if k == 'UiMb':
            e, i = mb.showerror.call_args_list, mb.showinfo.call_args_list
            need((len(e), len(i)) == ((1, 0) if fail else (0, 1)), f'{k}: message {m!r}: {len(e)} error boxes, {len(i)} info boxes')
            need((e or i)[0].args[-1] == core, f'{k}: message {m!r} shown as {(e or i)[0].args!r}')
            return
        need(u.infoHowText == core, f'{k}: message {m!r} kept as {u.infoHowText!r}')
        calls = tk.mock_calls
        text = [c.kwargs['text'] for c in calls if 'text' in c.kwargs]
        need(text and text[-1] == core, f'{k}: message {m!r} shown as {text}')
        bg = [c.kwargs['bg'] for c in calls if 'bg' in c.kwargs]
        need(bg and bg[-1] == ('red' if fail else 'green'), f'{k}: message {m!r} shown with background {bg}')


CASES = [('conversions', gen_case, check_case, 300), ('user interfaces', gen_ui, check_ui, 150)]
