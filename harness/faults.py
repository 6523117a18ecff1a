"""Run an operation in a forked child with a crash or a failure at the k-th file system call."""
import os, sys, json, gc, tempfile, signal

WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
MUTATING = ('os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.truncate', 'os.link', 'os.symlink', 'shutil.copyfile', 'shutil.move')


def run(op, watch, mode=None, k=None, limit=None, kinds=('write',)):
    """Run op() in a child. mode: None, 'crash', 'fail' or 'value' (another exception) at event number k (1-based); limit: file size limit.

    Return dict(status='ok'|'error'|'crash', error=..., events=[...]).
    """
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(rd)
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            tmp = os.path.join(watch, 'tmp')
            tempfile.tempdir = tmp
            events = []
            state = {'on': True}
            watch_real = os.path.realpath(watch)

            def hook(event, args):
                if not state['on']:
                    return
                if event == 'open':
                    p, m, flags = args
                    if not isinstance(p, str) or not isinstance(flags, int):
                        return
                    writing = flags & (os.O_WRONLY | os.O_RDWR)
                    if not writing:
                        if 'read' not in kinds:
                            return
                    paths = [p]
                    what = 'open-w' if writing else 'open-r'
                elif event in MUTATING:
                    paths = [a for a in args if isinstance(a, str)]
                    what = event
                else:
                    return
                if not any(os.path.realpath(os.path.abspath(p)).startswith(watch_real + os.sep) for p in paths):
                    return
                events.append([what] + [os.path.relpath(os.path.abspath(p), watch) for p in paths])
                if mode and len(events) == k:
                    if mode == 'crash':
                        state['on'] = False
                        os.write(wr, json.dumps({'status': 'crash', 'events': events}).encode())
                        os._exit(0)
                    raise ValueError('injected failure') if mode == 'value' else OSError(28, 'injected failure')
            sys.addaudithook(hook)
            if limit is not None:
                import resource
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
            res = {'status': 'ok'}
            try:
                op()
            except BaseException as ex:
                res = {'status': 'error', 'error': f'{type(ex).__name__}: {ex}'}
                ex.__traceback__ = None
                del ex
            gc.collect()
            state['on'] = False
            res['events'] = events
            res['cwd'] = os.getcwd()
            os.write(wr, json.dumps(res).encode())
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    buf = b''
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        buf += b
    os.close(rd)
    os.waitpid(pid, 0)
    if not buf:
        return {'status': 'died', 'events': []}
    return json.loads(buf)
