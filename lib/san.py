"""Reading what the sanitizers saw."""
import re

FRAME = re.compile(r'^\s+#\d+ 0x[0-9a-f]+ in (\S+) .*?/(libs|src)/(\S+?):(\d+)', re.M)
SUMMARY = re.compile(r'SUMMARY: (\w+): ([\w-]+)')
RUNTIME = re.compile(r'(\S+?):(\d+):\d+: runtime error: (.*)')


def classify(run):
    """None when the process ended normally, else (family, key, excerpt).
       families: memory, undefined, uninitialised, leak, signal, timeout, exit"""
    if run.timeout:
        return 'timeout', 'timeout', 'did not end within the time limit (tried twice)'
    text = run.err.decode('utf-8', 'replace')
    m = SUMMARY.search(text)
    ue = RUNTIME.search(text)
    where = FRAME.search(text)
    fn = where.group(1) if where else ''
    if ue:
        kind = re.sub(r'-?\d+', 'N', ue.group(3))
        kind = re.sub(r'0x\w+', 'P', kind)
        return 'undefined', 'undefined:%s:%s' % (fn or ue.group(1).split('/')[-1], kind[:60]), text[:6000]
    if m:
        tool, kind = m.group(1), m.group(2)
        if tool == 'LeakSanitizer' or 'LeakSanitizer' in text and 'detected memory leaks' in text:
            fns = [f[0] for f in FRAME.findall(text)]
            return 'leak', 'leak:' + (fns[0] if fns else '?'), text[:6000]
        if tool == 'MemorySanitizer':
            return 'uninitialised', 'uninitialised:' + fn, text[:6000]
        return 'memory', 'memory:%s:%s' % (kind, fn), text[:6000]
    if 'LeakSanitizer' in text and 'detected memory leaks' in text:
        return 'leak', 'leak:' + fn, text[:6000]
    if run.rc is not None and run.rc < 0:
        return 'signal', 'signal:%d' % -run.rc, text[:3000]
    if run.rc not in (0, 64):
        return 'exit', 'exit:%s' % run.rc, text[:3000]
    return None
