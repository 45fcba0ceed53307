"""Line/branch monitor over the code under test (sys.monitoring).

Each location reports until it has nothing new to say and is then switched
off, so the steady-state cost is close to nothing.
"""
import sys

TOOL = 3


class Coverage(object):
    def __init__(self, root):
        self.root = root
        self.lines = set()
        self.branches = set()
        self.fresh = 0
        self._on = False

    def start(self):
        mon = getattr(sys, 'monitoring', None)
        if mon is None:
            return
        try:
            mon.use_tool_id(TOOL, 'vf')
        except ValueError:
            return
        root = self.root
        lines, branches = self.lines, self.branches
        dis = mon.DISABLE
        me = self
        seen = {}

        def on_line(code, line):
            if code.co_filename.startswith(root):
                lines.add((code.co_filename, line))
                me.fresh += 1
            return dis

        def on_branch(code, off, dest):
            fn = code.co_filename
            if not fn.startswith(root):
                return dis
            key = (fn, code.co_firstlineno, off, dest > off + 2)
            if key not in branches:
                branches.add(key)
                me.fresh += 1
            if (fn, code.co_firstlineno, off, not key[3]) in branches:
                return dis
            loc = (code, off)
            n = seen[loc] = seen.get(loc, 0) + 1
            if n > 400:
                return dis

        ev = mon.events
        mon.register_callback(TOOL, ev.LINE, on_line)
        mon.register_callback(TOOL, ev.BRANCH, on_branch)
        mon.set_events(TOOL, ev.LINE | ev.BRANCH)
        self._on = True

    def stop(self):
        if self._on:
            sys.monitoring.set_events(TOOL, 0)
            sys.monitoring.free_tool_id(TOOL)
            self._on = False

    def take_fresh(self):
        n, self.fresh = self.fresh, 0
        return n
