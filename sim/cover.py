"""Lines of the library a batch executes (VERIF_COVER=directory; a development aid, off in checks)."""

import os
import sys

from . import env

DIR = os.environ.get("VERIF_COVER")
lines = set()


def start():
    if not DIR:
        return
    m = sys.monitoring
    m.use_tool_id(3, "verif")
    root = os.path.join(env.REPO, "openms")

    def hit(code, line):
        f = code.co_filename
        if f.startswith(root):
            lines.add((f, line))
        return m.DISABLE
    m.register_callback(3, m.events.LINE, hit)
    m.set_events(3, m.events.LINE)


def stop(name):
    if not DIR:
        return
    sys.monitoring.set_events(3, 0)
    os.makedirs(DIR, exist_ok=True)
    with open(os.path.join(DIR, name), "w") as f:
        f.writelines(f"{a}:{b}\n" for a, b in sorted(lines))
