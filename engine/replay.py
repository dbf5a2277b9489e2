"""Runs a script on the native replay binary and turns its log into monitor events."""
import json
import os
import subprocess
import tempfile


def run(binary, lines, timeout=20):
    fd, p = tempfile.mkstemp(prefix='ciscript.')
    with os.fdopen(fd, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    try:
        r = subprocess.run([binary, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True,
                           preexec_fn=limits)
        rc, out = r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        rc, out = 'timeout', (e.stdout or b'')
        if isinstance(out, bytes):
            out = out.decode()
    finally:
        os.unlink(p)
    log = []
    for l in out.split('\n'):
        l = l.strip()
        if l:
            try:
                log.append(json.loads(l))
            except ValueError:
                pass
    return rc, log


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def events(rc, log, ops):
    """monitor events of a single-threaded log.  ops: [(name, it, concrete args)] by operation index"""
    ev = []
    finished = False
    src = (0, 0)
    for r in log:
        t = r[2]
        a = r[3:]
        if t == 'op':
            nm, it, args = ops[a[0]]
            ev.append(('op', a[0], nm, it, args))
        elif t == 'panicked':
            ev.append(('panicked', a[0], bool(a[1])))
        elif t == 'src':
            src = (a[0], a[1])
        elif t == 'srcmem':
            ev.append(('srcmem_raw', a[0]))
        elif t == 'live':
            ev.append(('live', a[0], a[1]))
        elif t == 'finished':
            finished = True
        else:
            ev.append(tuple([t] + a))
    if rc == 'timeout' and not any(e[0] == 'hang' for e in ev):
        ev.append(('hang',))
    elif not finished and not any(e[0] in ('hang', 'others_done') for e in ev):
        ev.append(('crash', rc))
    return ev, src
