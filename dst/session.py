"""The prompt: what a session prints, line by line, and how one is typed.

A session is a list of items:
  {"k": "st", "s": statement}        a declaration, definition or expression
  {"k": "bad", "t": text}            no statement of the language: a diagnostic
  {"k": "die", "t": text}            evaluates to an error: ends everything
  {"k": "inc", "f": name}            #include <name> (its macros are known then)
  {"k": "blank"}
Any item may have "tabs": [[column, count], ...]: while it is typed, that many
TABs are pressed after so many characters, then the line is typed anew; and
"auto": [typed, completed]: its first word is typed by completion."""
import minic
from minic import Arr, Cell, Exit, FP, Fail, Reject, St, cdecl, is_int, rs

KILL = '\x15'


def line_text(it):
    k = it['k']
    if k == 'st':
        out = []
        rs(it['s'], out, 0)
        return ' '.join(x.strip() for x in out)
    if k == 'inc':
        return '#include <%s>' % it['f']
    if k == 'blank':
        return ''
    return it['t']


def typed(it):
    """The keys pressed for an item, and the lines that bic should then see."""
    text = line_text(it)
    keys = ''
    for col, n in it.get('tabs', []):
        keys += text[:col] + '\t' * n + KILL
    if it.get('auto'):
        pre, full = it['auto']
        assert text.startswith(full + ' ')
        return keys + pre + '\t' + text[len(full) + 1:] + '\n', text
    return keys + text + '\n', text


def keys_of(sessions):
    """Also those that are entered from a line of another ("sub")."""
    out = []
    for s in sessions:
        k = ''
        for it in s:
            k += typed(it)[0]
            if it.get('sub'):
                k += keys_of(it['sub']) + '\x04'
        out.append(k)
    return '\x04'.join(out)


# ------------------------------------------------------------ printed values

def show_scalar(ty, v):
    if is_int(ty):
        return str(v)
    if v is None:
        return '(nil)'
    if ty == 'str':
        return 'PTR ("%s")' % v
    return 'PTR'


def show_struct(st):
    out = '{\n'
    for n, c in st.f.items():
        if isinstance(c, Arr):
            if c.ty == 'char':
                raise Reject('shown as a string')
            x = 'PTR'
        elif isinstance(c, St):
            raise Reject('nested struct')
        else:
            if c.dead or not c.init:
                raise Reject('uninitialised')
            x = show_scalar(c.ty, c.v)
        out += '    .%s = %s\n' % (n, x)
    return out + '}'


def show(interp, e):
    """What evaluating an expression at the prompt prints (None: nothing)."""
    if e[0] in ('v', 'idx', 'mem', 'arrow', 'deref'):
        if not (e[0] == 'v' and e[1] in interp.enums and interp.lookup(e[1]) is None):
            x = interp.obj(e)
            if isinstance(x, St):
                return show_struct(x)
            if isinstance(x, Arr):
                if x.ty == 'char':
                    raise Reject('shown as a string')
                return 'PTR'
    last = e
    while last[0] == 'set' and last[1] == '=':
        last = last[3]
    ty, v = interp.ev(e)
    if ty == 'void':
        return None
    if ty == 'fp':
        return 'PTR'
    if last is not e and not is_int(ty):
        # An assignment of anything but an integer shows its right operand.
        if last[0] == 's':
            return '"%s"' % v
        if last[0] == 'n':
            return str(last[1])
    if last[0] == 's':
        return '"%s"' % v
    if ty == 'str' and last[0] not in ('v', 'idx', 'mem', 'arrow', 'deref'):
        raise Reject('string value')
    return show_scalar(ty, v)


def do_line(interp, it, headers):
    """Evaluates one item; its output goes to interp.out."""
    k = it['k']
    if k == 'bad' or k == 'blank':
        return
    if k == 'die':
        raise Fail()
    if k == 'inc':
        interp.macros.update(headers[it['f']]['macros'])
        done = interp.__dict__.setdefault('included', set())
        if it['f'] not in done:
            done.add(it['f'])
            for s in headers[it['f']].get('top', []):
                interp.stmt(s)
        return
    s = it['s']
    if s[0] == 'e':
        r = show(interp, s[1])
        if r is not None:
            interp.out.append(r + '\n')
        return
    interp.stmt(s)
    if s[0] == 'print':
        interp.out.append('%d\n' % len(interp.out[-1].encode('latin-1')))
    elif s[0] in ('decl', 'arr', 'st', 'static', 'typedef'):
        interp.out.append(s[2] + '\n')
    elif s[0] == 'decls':
        interp.out.append(s[2][-1][0] + '\n')
    elif s[0] in ('struct', 'enum'):
        pass
    else:
        raise Reject('not for the prompt')


def header_text(h):
    out = []
    minic.rb(h.get('top', []), out, 0)
    return ''.join('#define %s %s\n' % (n, minic.rx(e)) for n, e in h['macros'].items()) + \
        h.get('text', '') + ''.join(l + '\n' for l in out)


class Model:
    """Expected outcome of a prompt session (no script)."""

    def __init__(self, rc, items, headers, events=(), skip=(), stop=None):
        self.i = minic.Interp({'top': rc or []}, events, max_steps=20000)
        if rc is not None:
            # The arguments of the script that the start-up file is.
            self.i.globals['argc'] = Cell('int', 1)
            self.i.globals['argv'] = Cell('pargv', ())
        self.outs = []              # per line
        self.code = 0
        self.vague = False
        it = None
        try:
            for s in rc or []:
                self.i.stmt(s)
            self.rc_out = ''.join(self.i.out)
            for n, it in enumerate(items):
                if stop is not None and n == stop:
                    break
                mark = len(self.i.out)
                try:
                    if n not in skip:
                        do_line(self.i, it, headers)
                finally:
                    self.outs.append(''.join(self.i.out[mark:]))
        except Exit as x:
            self.code = x.code
        except Fail:
            self.code = None
        except Reject:
            # Without a line that was rejected because of a fault, a later one
            # may not be possible: no opinion of what happens from there on.
            if not skip or it is None:
                raise
            self.code = None
            self.vague = True
        self.before_exit = len(self.i.out)
        self.i.finish()
        self.out = ''.join(self.i.out)


# -------------------------------------------------------------- completion

def visible(interp):
    """Identifiers that can be completed, and those that may be offered, too."""
    out = set()
    for s in interp.scopes:
        if s:
            out |= set(s)
    out |= set(interp.globals) | set(interp.funcs) | set(interp.protos) | set(interp.enums) | set(interp.typedefs)
    return out, set(interp.tags)


def is_access(text):
    return any(text[i] == '.' or '->' in text[i:] for i in range(len(text) - 1, 0, -1))


def members(interp, text):
    """Candidates for a member access, or None if the model has no opinion."""
    import re
    m = re.match(r'^([a-z_]\w*(?:\[\d\])?(?:(?:\.|->)\w+(?:\[\d\])?)*)(\.|->)(\w*)$', text)
    if not m:
        return None
    path, op, pre = m.groups()
    try:
        e = None
        for i, w in enumerate(re.split(r'(\.|->)', path)):
            if i % 2:
                o = w
                continue
            n = re.match(r'(\w+)(?:\[(\d)\])?', w)
            if e is None:
                e = ['v', n.group(1)]
            else:
                e = ['mem' if o == '.' else 'arrow', e, n.group(1)]
            if n.group(2):
                e = ['idx', e, ['n', int(n.group(2))]]
        x = interp.deref(interp.ev(e)) if op == '->' else interp.obj(e)
    except Reject:
        return None
    if not isinstance(x, St):
        return None
    return {path + op + f for f in x.f if f.startswith(pre)}


def candidates(interp, text):
    """(must be offered, may be offered), None if anything goes."""
    if is_access(text):
        m = members(interp, text)
        return (m, m) if m is not None else (None, None)
    must, may = visible(interp)
    f = lambda s: {x for x in s if x.startswith(text)}
    return f(must), f(must | may)
