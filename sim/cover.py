"""Which lines of the library a check reaches (only with NIMSIM_COVER=DIR)."""
import os
import sys

DIR = os.environ.get('NIMSIM_COVER')
seen = set()
new = []


def start():
    if not DIR or sys.monitoring.get_tool(3):
        return
    os.makedirs(DIR, exist_ok=True)
    mon = sys.monitoring
    mon.use_tool_id(3, 'reach')

    def line(code, number):
        name = code.co_filename
        if '/nimble/' in name:
            key = (name[name.index('/nimble/') + 1:], number)
            if key not in seen:
                seen.add(key)
                new.append(key)
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def dump():
    if new:
        with open(os.path.join(DIR, str(os.getpid())), 'a') as f:
            f.writelines(f'{n}:{l}\n' for n, l in new)
        new.clear()
