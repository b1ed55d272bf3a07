"""Minimise a violation: case first, then the schedule and the faults."""
import copy, re, time
import case as C
from sgen import blocks_of


def klass(m):
    """What kind of violation a message is about."""
    m = re.sub(r'signal \d+', 'signal', m)
    w = re.sub(r'[^a-z ]+', ' ', m.split(':')[0].split(';')[0].split('(')[0]).split()
    return ' '.join(w[:3])


def lists(c):
    """The parts of a case that are sequences, outermost first."""
    out = []
    if c.get('events'):
        out.append(c['events'])
    if 'items' in c:
        out.append(c['items'])
        for it in c['items']:
            if it.get('tabs'):
                out.append(it['tabs'])
    for top in ((c.get('prog') or {}).get('top'), c.get('rc')):
        if top:
            out.append(top)
            out += blocks_of({'top': top})

    def sess(ss):
        out.append(ss)
        for s in ss:
            out.append(s)
            for it in s:
                if it.get('sub'):
                    sess(it['sub'])
    if 'sessions' in c:
        for s in c['sessions']:
            out.append(s)
            for it in s:
                if it.get('sub'):
                    for x in it['sub']:
                        out.append(x)
    return out


def blocks(c):
    out = []
    for top in ((c.get('prog') or {}).get('top'), c.get('rc')):
        if top:
            out += blocks_of({'top': top})
    return out


class Shrinker:
    def __init__(self, execute, c, plan, msg, deadline):
        self.exe, self.case, self.plan = execute, c, dict(plan)
        self.msg, self.k = msg, klass(msg)
        self.deadline = deadline
        self.n = 0
        self.res = None

    def ok(self, c, p):
        if time.time() > self.deadline:
            return False
        try:
            x = C.expect(c, p.get('events'))
            res = self.exe(c, p)
            self.n += 1
            m = C.judge(c, p, res, {repr(p.get('events')): x})
        except (C.Reject, RecursionError, AssertionError, KeyError, IndexError, ValueError):
            return False
        if m and not m.startswith('MACHINERY') and klass(m) == self.k:
            self.msg, self.res = m, res
            return True
        return False

    def try_(self, c, p):
        if self.ok(c, p):
            self.case, self.plan = c, p
            return True
        return False

    def ddlist(self, get):
        """Shrinks the list get(case, plan)."""
        n = len(get(self.case, self.plan))
        size = n
        progress = False
        while size >= 1:
            pos = 0
            while pos < len(get(self.case, self.plan)):
                c, p = copy.deepcopy(self.case), copy.deepcopy(self.plan)
                L = get(c, p)
                del L[pos:pos + size]
                if self.try_(c, p):
                    progress = True
                else:
                    pos += size
                if time.time() > self.deadline:
                    return progress
            size //= 2
        return progress

    def change_plan(self, **k):
        p = copy.deepcopy(self.plan)
        for a, b in k.items():
            if b is None:
                p.pop(a, None)
            else:
                p[a] = b
        if p == self.plan:
            return False
        return self.try_(self.case, p)

    def unwrap(self):
        done = False
        i = 0
        while i < len(blocks(self.case)):
            j = 0
            while j < len(blocks(self.case)[i]):
                s = blocks(self.case)[i][j]
                subs = {'if': [2, 3], 'if1': [2, 3], 'while': [2], 'for': [5], 'for0': [2], 'block': [1]}.get(s[0], [])
                hit = False
                for q in subs:
                    c = copy.deepcopy(self.case)
                    b = blocks(c)[i]
                    b[j:j + 1] = b[j][q]
                    if self.try_(c, self.plan):
                        hit = done = True
                        break
                if not hit:
                    j += 1
                if time.time() > self.deadline:
                    return done
            i += 1
        return done

    def run(self):
        if 'events' in self.plan:
            c = copy.deepcopy(self.case)
            p = copy.deepcopy(self.plan)
            c['events'] = p.pop('events')
            self.try_(c, p)
        if not self.ok(self.case, self.plan):
            self.res = self.exe(self.case, self.plan)
            return self.case, self.plan, self.msg, self.res
        listed = self.plan.get('gc', [''])[0] not in ('natural', 'never', 'every')
        self.change_plan(gc=['natural']) or (listed and self.change_plan(gc=['every']))
        for k in ('heap', 'chunk', 'cpp'):
            if k in self.plan:
                self.change_plan(**{k: None})
        if self.plan.get('faults'):
            self.ddlist(lambda c, p: p['faults'])
        for _ in range(4):
            progress = False
            if self.case.get('rc') is not None:
                c = copy.deepcopy(self.case)
                c['rc'] = None
                progress |= self.try_(c, self.plan)
            i = 0
            while i < len(lists(self.case)):
                progress |= self.ddlist(lambda c, p: lists(c)[i] if i < len(lists(c)) else [])
                i += 1
            progress |= self.unwrap()
            self.nth()
            if not progress or time.time() > self.deadline:
                break
        self.change_plan(gc=['natural'])
        if self.plan.get('gc', ['natural'])[0] not in ('natural', 'never'):
            p = dict(self.plan, gclog=1)
            pts = [l[3:] for l in self.exe(self.case, p).log if l.startswith('gc ')]
            if 0 < len(pts) < 20000 and self.change_plan(gc=['list'] + pts):
                self.ddlist(lambda c, p: Tail(p['gc']))
        self.ok(self.case, self.plan) or self.refresh()
        return self.case, self.plan, self.msg, self.res

    def refresh(self):
        self.res = self.exe(self.case, self.plan)
        m = C.judge(self.case, self.plan, self.res)
        self.msg = m or self.msg

    def nth(self):
        """The first occurrences of sites at which the faults do."""
        for i, f in enumerate(self.plan.get('faults', [])):
            for n in list(range(1, min(f[1], 12))):
                p = copy.deepcopy(self.plan)
                p['faults'][i][1] = n
                if self.try_(self.case, p):
                    break


class Tail:
    """All but the first element of a list."""

    def __init__(self, l):
        self.l = l

    def __len__(self):
        return len(self.l) - 1

    def __delitem__(self, s):
        del self.l[s.start + 1:s.stop + 1]
