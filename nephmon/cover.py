"""Which functions and lines of the code under test did the monitored executions enter?

sys.monitoring reports every line once per process (the event is disabled after the first hit), forked
workers included; each hit is appended to a file. Used for evidence and by tools/cover.sh.
"""
import os
import sys


def start(path, repo):
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    fd = os.open(path, os.O_CREAT | os.O_APPEND | os.O_WRONLY, 0o600)
    root = os.path.join(os.path.abspath(repo), 'nephosem') + os.sep

    def line(code, no):
        f = code.co_filename
        if f.startswith(root):
            try:
                os.write(fd, ('%s\t%s\t%d\n' % (f[len(root):], code.co_qualname, no)).encode())
            except OSError:
                pass
        return mon.DISABLE
    mon.use_tool_id(mon.COVERAGE_ID, 'nephmon')
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def read(paths):
    out = set()
    for p in paths:
        try:
            with open(p, encoding='utf8', errors='replace') as f:
                for l in f:
                    x = l.rstrip('\n').split('\t')
                    if len(x) == 3 and x[2].isdigit():
                        out.add((x[0], x[1], int(x[2])))
        except OSError:
            pass
    return out
