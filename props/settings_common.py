"""Shared pieces of the settings simulations (C01, C02)."""
import configparser
import os

SECTIONS = {
    'fetch': ['location'],
    'logger': ['name', 'enabledByDefault', 'enableDeepLogging', 'location'],
    'mySection': ['alpha', 'Beta', 'beta'],
    'other': ['alpha', 'x y', 'long_option_name'],
}
WORDS = ['v', 'True', 'False', '', 'a b', 'x=y', 'p:q', '100%', '%d%%', '#hash', ';semi', 'ünï',
         '1', '0.5', '[sec]', '/data/dir', 'C:\\tmp', '"q"', "it's", '%(alpha)s']


def value(rng, section, option, counter):
    if (section, option) in (('fetch', 'location'), ('logger', 'location')):
        return f'./loc{rng.randrange(4)}-{counter}'
    if (section, option) == ('logger', 'name'):
        return f'log{rng.randrange(4)}-{counter}'
    if section == 'logger':
        return rng.choice(['True', 'False'])
    if rng.random() < 0.1:
        return ''
    w = rng.choice(WORDS)
    if rng.random() < 0.5:
        w = f'{w}{counter}' if w else str(counter)
    if rng.random() < 0.15:
        w = w + 'z' * rng.choice([3, 10, 30, 9000])
    return w


def option(rng):
    sec = rng.choice(list(SECTIONS))
    return sec, rng.choice(SECTIONS[sec])


def parse(path):
    """The file's contents by an independent reading; None if there is no file.
    Raises configparser.Error / UnicodeDecodeError when it is not readable."""
    if not os.path.exists(path):
        return None
    cp = configparser.RawConfigParser(strict=True)
    cp.optionxform = str
    with open(path, encoding='utf-8') as f:
        text = f.read()
    cp.read_string(text)
    return {s: dict(cp.items(s)) for s in cp.sections()}


def render(d):
    out = []
    for s, opts in d.items():
        out.append(f'[{s}]')
        out += [f'{o} = {v}' for o, v in opts.items()]
        out.append('')
    return '\n'.join(out) + '\n'


def merged(base, add):
    r = {s: dict(o) for s, o in base.items()}
    for s, o in add.items():
        if o:
            r.setdefault(s, {}).update(o)
    return r


def clean(d):
    return {s: o for s, o in d.items() if o}


# operations executed inside a simulated session
def op_set(nimble, state, section, option, value):
    nimble.settings.set(section, option, value)


def op_setDefault(nimble, state, section, option, value):
    nimble.settings.setDefault(section, option, value)


def op_save(nimble, state, section=None, option=None):
    if section is None:
        nimble.settings.saveChanges()
    elif option is None:
        nimble.settings.saveChanges(section)
    else:
        nimble.settings.saveChanges(section, option)


def op_getall(nimble, state):
    return {s: dict(o) for s, o in nimble.settings.get().items()}


def op_getevery(nimble, state):
    """Everything, as told by each way of asking."""
    every = {s: dict(o) for s, o in nimble.settings.get().items()}
    return [every, {s: dict(nimble.settings.get(s)) for s in every},
            {s: {o: nimble.settings.get(s, o) for o in every[s]} for s in every}]


def op_getsec(nimble, state, section):
    return dict(nimble.settings.get(section))


def op_get(nimble, state, section, option):
    return nimble.settings.get(section, option)


def op_text(nimble, state):
    return str(nimble.settings) and repr(nimble.settings) and None


def op_hook(nimble, state, section, option):
    calls = state.setdefault('hookcalls', [])
    def told(new):
        calls.append([section, option, new])
    nimble.settings.hook(section, option, told)


def op_hookcalls(nimble, state):
    c = state.setdefault('hookcalls', [])
    r = list(c)
    c.clear()
    return r


def op_logdata(nimble, state):
    nimble.data([[1, 2]], useLog=True)


def op_exit(nimble, state):
    """What a normal interpreter exit would still run."""
    import atexit
    atexit._run_exitfuncs()


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith('op_')}


def state_hash(root, *parts):
    import hashlib
    return hashlib.sha256(repr(parts).replace(root, 'ROOT').encode()).hexdigest()[:16]
