"""What a list of instructions does, as verification conditions.

The code a Compile method returns is a list of instructions in which the code
of the sub-patterns appears as opaque blocks.  `Runs` executes such a list from
its first element, at an arbitrary position of an arbitrary document, with the
instruction semantics that the contracts of vm (C09) prove for the real machine.
A block that was compiled from pattern q behaves as m(q) says (the contract of
Compile, assumed for sub-patterns).  Every point a loop comes back to must again
have the meaning of the pattern being compiled, which gives the induction on the
remaining length of the document."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from ..smt import BYTES, fresh, I, B
from ..sym import Unsupported

STRAIGHT = ('Char', 'Set', 'Any')


class St:
    def __init__(self, pc, pos, caps, frames, conds):
        self.pc, self.pos, self.caps, self.frames, self.conds = pc, pos, caps, frames, conds

    def copy(self):
        return St(self.pc, self.pos, list(self.caps), [dict(f, caps=list(f['caps'])) for f in self.frames], list(self.conds))

    def top(self):
        return self.frames[-1]['caps'] if self.frames else self.caps


class Runs:
    def __init__(self, P, blocks, hypotheses, doc):
        self.P, self.S, self.R = P, P.S, P.R
        self.lens = dict((b.get_id(), l) for b, q, l in blocks)
        self.blocks = [(b, q) for b, q, l in blocks]          # [(slice term, pattern)]
        self.d = doc
        self.n = BYTES.len(doc)
        self.goals = []               # (label, conds, goal)
        self.steps = 0

    # --- pieces
    def flatten(self, t):
        th = self.S.prog
        f = th.fns()
        if t.eq(f['empty']):
            return []
        for b, q in self.blocks:
            if t.eq(b):
                return [('block', b, q)]
        dcl = t.decl()
        if dcl.eq(f['cat']):
            return self.flatten(t.arg(0)) + self.flatten(t.arg(1))
        if dcl.eq(f['unit']):
            return [self.insn(t.arg(0))]
        if dcl.eq(f['sub']):
            for b, q in self.blocks:
                if t.arg(0).eq(b) or (b.decl().eq(f['sub']) and b.arg(0).eq(t.arg(0)) and z3.is_int_value(b.arg(1)) and b.arg(1).as_long() == 0):
                    lo, hi = z3.simplify(t.arg(1)), z3.simplify(t.arg(2))
                    whole = hi.eq(z3.simplify(th.len(b))) or hi.eq(z3.simplify(self.lens[b.get_id()]))
                    if whole and lo.eq(z3.IntVal(0)):
                        return [('block', b, q)]
                    if z3.is_int_value(lo) and lo.as_long() == 0:
                        return [('pre', b, q, hi)]
                    if whole:
                        return [('rest', b, q, lo)]
        raise Unsupported('code of unknown shape: %s; blocks %s' % (t.sexpr()[:200], [(b.sexpr()[:60], self.lens[b.get_id()].sexpr()) for b, q in self.blocks]))

    def insn(self, t):
        t = z3.simplify(t)
        for n in self.S.tid:
            if z3.is_true(z3.simplify(self.S.is_(t, n))):
                return ('insn', n, t)
        raise Unsupported('unknown instruction %s' % t.sexpr()[:200])

    def fld(self, pc, name):
        _, n, t = pc
        return z3.simplify(self.S.field(t, n, name))

    def run(self, seq, p, what=''):
        """the code means p"""
        self.code = self.flatten(seq)
        self.p = p
        self.labels = {}
        for k, x in enumerate(self.code):
            if x[0] == 'insn' and x[1] == 'Label':
                key = z3.simplify(self.S.D.unbox[self.S.tid['Label']](x[2]))
                if any(key.eq(l) for l in self.labels.values()):
                    raise Unsupported('a label is placed twice')
                self.labels[k] = key
        # points that control comes back to
        self.heads = set()
        for k, x in enumerate(self.code):
            if x[0] != 'insn':
                continue
            if x[1] == 'Span':
                self.heads.add(k)
            if x[1] not in ('Label',) and any(self.S.p.name(self.S.w.p.fields(self.S.tid[x[1]])[j]['type']) == 'isa.Label' for j in range(len(self.S.w.p.fields(self.S.tid[x[1]]) or []))):
                tg = self.target(self.fld(x, 'Lbl'))
                if tg is not None and tg <= k:
                    self.heads.add(tg)
        self.claims = {}
        i0 = z3.Int('at')
        st = St(0, i0, [], [], [0 <= i0, i0 <= self.n])
        self.origin = None
        self.x0 = i0
        self.facts(i0, st)
        self.go(st)
        done = set()
        while len(done) < len(self.claims):
            for h in list(self.claims):
                if h in done:
                    continue
                done.add(h)
                x = z3.Int('x!%d' % h)
                frames = [dict(f, pos=x if f['pos'] is None else f['pos'], caps=[]) for f in self.claims[h]]
                st = St(h, x, [], frames, [0 <= x, x <= self.n])
                self.origin, self.x0 = h, x
                self.facts(x, st)
                self.go(st, first=True)
        return self.goals

    def facts(self, x, st):
        """a block whose first instruction does not match cannot succeed"""
        for b, q in self.blocks:
            st.conds.append(self.P.headfact(b, q, self.d, x))
            n = self.S.prog.len(b)
            st.conds.append(z3.Implies(self.P.straight(b, n), self.P.m(q, self.d, x) == If(self.P.passes(b, n, self.d, x), self.R.ok(x + self.P.back(b, n), self.P.cnil), self.R.fail)))

    def target(self, lbl):
        for k, l in self.labels.items():
            if l.eq(lbl):
                return k
        return None

    # --- outcomes
    def outcome(self, st, r, why):
        self.goals.append((why, st.conds, r == self.P.m(self.p, self.d, self.x0)))

    def must(self, st, f, why):
        self.goals.append((why, list(st.conds), f))
        st.conds.append(f)

    def fail(self, st):
        while st.frames and st.frames[-1]['kind'] != 'bt':
            if st.frames.pop()['kind'] == 'trees':
                self.goals.append(('no failure reaches an entry of a memoized repetition', st.conds, BoolVal(False)))
                return
        if not st.frames:
            self.outcome(st, self.R.fail, 'a failing run is a failing match')
            return
        f = st.frames.pop()
        st.pos = f['pos']
        self.jump(st, f['lbl'])

    def jump(self, st, lbl):
        t = self.target(lbl)
        if t is None:
            self.goals.append(('jump to a label of the code', st.conds, BoolVal(False)))
            return
        st.pc = t
        self.go(st)

    def pop(self, st, kinds, prop, why):
        if not st.frames or st.frames[-1]['kind'] not in kinds:
            self.goals.append((why + ': the entry it belongs to is on top of the stack', st.conds, BoolVal(False)))
            return None
        f = st.frames.pop()
        if prop:
            st.top().extend(f['caps'])
        return f

    def arrive(self, st, h):
        """control reaches a loop head: the rest of the run means the pattern from here"""
        nx = [x for x in self.code[h:] if x[:2] != ('insn', 'Label')][:1]
        if nx and nx[0][:2] == ('insn', 'MemoTreeOpen'):
            # any number (also none) of entries of this repetition may lie on the stack
            tid = self.fld(nx[0], 'Id')
            if not (st.frames and st.frames[-1]['kind'] == 'trees' and st.frames[-1]['id'].eq(tid)):
                st.frames.append(dict(kind='trees', id=tid, some=False, pos=z3.IntVal(0), caps=[]))
            st.frames[-1]['some'] = False
            pre, st.frames[-1]['caps'] = st.frames[-1]['caps'], []
            st.top()
            st.caps = st.caps + pre if len(st.frames) == 1 else st.caps
            if len(st.frames) > 1 and pre:
                raise Unsupported('memoized repetition inside other entries')
        shape = self.claims.get(h)
        if shape is None:
            shape = [dict(kind=f['kind'], lbl=f.get('lbl'), id=f.get('id'), flag=f.get('flag'), some=f.get('some'), pos=None if f['pos'].eq(st.pos) else f['pos']) for f in st.frames]
            self.claims[h] = shape
        same = len(shape) == len(st.frames)
        if same:
            for a, b in zip(shape, st.frames):
                if a['kind'] != b['kind'] or (a['lbl'] is not None and not a['lbl'].eq(b['lbl'])) or b['caps']:
                    same = False
                    break
                self.must(st, b['pos'] == (st.pos if a['pos'] is None else a['pos']), 'the loop comes back with the same stack')
        if not same:
            self.goals.append(('the loop comes back with the same stack', st.conds, BoolVal(False)))
            return
        r = self.P.prepend(self.P.cats(st.caps), self.P.m(self.p, self.d, st.pos))
        if self.origin is None:
            self.outcome(st, r, 'the code means the pattern (loop)')
            return
        # inside a claim: only for later positions (or an earlier head at the same position)
        s2 = st.copy()
        s2.conds.append(st.pos > self.x0)
        self.outcome(s2, r, 'one more round means the pattern')
        s3 = st.copy()
        s3.conds.append(st.pos == self.x0)
        if h < self.origin:
            self.outcome(s3, r, 'one more round means the pattern')
        elif h == self.origin:
            self.outcome(s3, self.R.div, 'a round that consumes nothing never ends')
        else:
            self.goals.append(('the loop makes progress', s3.conds, BoolVal(False)))
        self.goals.append(('the loop does not move backwards', st.conds, st.pos >= self.x0))

    def branch(self, st, cond, yes, no):
        a, b = st, st.copy()
        a.conds.append(cond)
        b.conds.append(Not(cond))
        yes(a)
        no(b)

    def go(self, st, first=False):
        P, R, S = self.P, self.R, self.S
        while True:
            self.steps += 1
            if self.steps > 3000:
                raise Unsupported('too many steps')
            k = st.pc
            if k in self.heads and not first:
                self.arrive(st, k)
                return
            first = False
            if k == len(self.code):
                if st.frames:
                    self.goals.append(('the stack is as before at the end', st.conds, BoolVal(False)))
                else:
                    self.outcome(st, R.ok(st.pos, P.cats(st.caps)), 'a run to the end is a match')
                return
            x = self.code[k]
            d, n, pos = self.d, self.n, st.pos
            if x[0] == 'block' or x[0] == 'rest':
                _, b, q = x[:3]
                at = pos
                if x[0] == 'rest':
                    at = z3.simplify(pos - P.back(b, x[3]))
                    self.must(st, And(P.straight(b, x[3]), 0 <= at, x[3] <= S.prog.len(b), P.passes(b, x[3], d, at)), 'the part left out of a block has just been matched')
                r = P.m(q, d, at)
                s = st.copy()
                s.conds.append(R.is_stop(r))
                self.outcome(s, R.stop, 'a stopped run')
                s = st.copy()
                s.conds.append(R.is_div(r))
                self.outcome(s, R.div, 'a run that does not end')
                s = st.copy()
                s.conds.append(R.is_fail(r))
                self.fail(s)
                st.conds.append(R.is_ok(r))
                st.pos = R.end(r)
                st.top().append(R.rcaps(r))
                st.pc += 1
                continue
            if x[0] == 'pre':
                _, b, q, hi = x
                self.must(st, And(P.straight(b, hi), 0 <= hi, hi <= S.prog.len(b)), 'only a straight beginning of a block is taken out of it')
                c = P.passes(b, hi, d, pos)
                s = st.copy()
                s.conds += [Not(c), R.is_fail(P.m(q, d, pos))]
                self.fail(s)
                st.conds.append(c)
                st.pos = pos + P.back(b, hi)
                st.pc += 1
                continue
            nm = x[1]
            F = lambda f: self.fld(x, f)
            st.pc += 1

            def consume(cond, by):
                s = st.copy()
                s.conds.append(Not(cond))
                self.fail(s)
                st.conds.append(cond)
                st.pos = pos + by
            if nm in ('Label', 'Nop', 'Error'):
                continue
            if nm == 'Char':
                consume(And(pos < n, BYTES.at(d, pos) == F('Byte')), 1)
            elif nm == 'Set':
                consume(And(pos < n, P.has(F('Chars'), BYTES.at(d, pos))), 1)
            elif nm == 'Any':
                consume(pos + F('N') <= n, F('N'))
            elif nm == 'Empty':
                consume(P.eop(F('Op'), d, pos), 0)
            elif nm == 'Span':
                s = st.copy()
                s.conds.append(And(pos < n, P.has(F('Chars'), BYTES.at(d, pos))))
                s.pos = pos + 1
                s.pc = k
                self.go(s)
                st.conds.append(Not(And(pos < n, P.has(F('Chars'), BYTES.at(d, pos)))))
            elif nm == 'Choice':
                st.frames.append(dict(kind='bt', lbl=F('Lbl'), pos=pos, caps=[]))
            elif nm in ('TestChar', 'TestSet', 'TestAny', 'TestCharNoChoice', 'TestSetNoChoice'):
                c = {'TestChar': lambda: And(pos < n, BYTES.at(d, pos) == F('Byte')), 'TestSet': lambda: And(pos < n, P.has(F('Chars'), BYTES.at(d, pos))),
                     'TestAny': lambda: pos + F('N') <= n}[nm.replace('NoChoice', '')]()
                s = st.copy()
                s.conds.append(Not(c))
                self.jump(s, F('Lbl'))
                st.conds.append(c)
                if not nm.endswith('NoChoice'):
                    st.frames.append(dict(kind='bt', lbl=F('Lbl'), pos=pos, caps=[]))
                st.pos = pos + (F('N') if nm == 'TestAny' else 1)
            elif nm == 'Jump':
                self.jump(st, F('Lbl'))
                return
            elif nm == 'Commit':
                if self.pop(st, ('bt',), True, nm) is None:
                    return
                self.jump(st, F('Lbl'))
                return
            elif nm == 'PartialCommit':
                f = self.pop(st, ('bt',), True, nm)
                if f is None:
                    return
                st.frames.append(dict(f, pos=pos, caps=[]))
                self.jump(st, F('Lbl'))
                return
            elif nm == 'BackCommit':
                f = self.pop(st, ('bt',), True, nm)
                if f is None:
                    return
                st.pos = f['pos']
                self.jump(st, F('Lbl'))
                return
            elif nm == 'Fail':
                self.fail(st)
                return
            elif nm == 'FailTwice':
                if self.pop(st, ('bt',), False, nm) is None:
                    return
                self.fail(st)
                return
            elif nm in ('CaptureBegin', 'CaptureLate'):
                st.frames.append(dict(kind='capt', id=F('Id'), pos=z3.simplify(pos - F('Back')) if nm == 'CaptureLate' else pos, caps=[]))
            elif nm == 'CaptureFull':
                st.top().append(P.cnode(F('Id'), z3.simplify(pos - F('Back')), F('Back'), P.cnil))
            elif nm == 'CaptureEnd':
                f = self.pop(st, ('capt',), False, nm)
                if f is None:
                    return
                st.top().append(P.cnode(f['id'], f['pos'], pos - f['pos'], P.cats(f['caps'])))
            elif nm == 'MemoOpen':
                st.frames.append(dict(kind='memo', pos=pos, caps=[]))
            elif nm == 'MemoClose':
                if self.pop(st, ('memo',), True, nm) is None:
                    return
            elif nm == 'MemoTreeOpen':
                # nothing memoized yet (what a memoized result does is C13)
                if not (st.frames and st.frames[-1]['kind'] == 'trees' and st.frames[-1]['id'].eq(F('Id'))):
                    st.frames.append(dict(kind='trees', id=F('Id'), some=False, pos=z3.IntVal(0), caps=[]))
                st.frames[-1]['some'] = True
            elif nm == 'MemoTreeInsert':
                if not (st.frames and st.frames[-1]['kind'] == 'trees' and st.frames[-1]['some']):
                    self.goals.append(('an entry of the repetition is on top of the stack', st.conds, BoolVal(False)))
                    return
            elif nm == 'MemoTree':
                pass            # merges entries: the captures stay in order (grouping nodes are not visible children)
            elif nm == 'MemoTreeClose':
                if st.frames and st.frames[-1]['kind'] == 'trees' and st.frames[-1]['id'].eq(F('Id')):
                    f = st.frames.pop()
                    st.top().extend(f['caps'])
            elif nm == 'CheckBegin':
                st.frames.append(dict(kind='check', id=F('Id'), flag=F('Flag'), pos=pos, caps=[]))
            elif nm == 'CheckEnd':
                f = self.pop(st, ('check',), True, nm)
                if f is None:
                    return
                c = P.chk(F('Checker'), f['id'], f['flag'], d, f['pos'], pos)
                s = st.copy()
                s.conds.append(c == -1)
                self.fail(s)
                st.conds.append(c != -1)
                st.pos = pos + c
            elif nm == 'End':
                if not z3.is_true(F('Fail')):
                    self.goals.append(('no successful end inside a pattern', st.conds, Not(F('Fail'))))
                self.outcome(st, R.stop, 'the parse stops')
                return
            elif nm == 'openCall':
                r = P.env(F('name'), d, pos)
                self.P.result_in(st, r, pos, n)
                s = st.copy()
                s.conds.append(R.is_stop(r))
                self.outcome(s, R.stop, 'a stopped run')
                s = st.copy()
                s.conds.append(R.is_div(r))
                self.outcome(s, R.div, 'a run that does not end')
                s = st.copy()
                s.conds.append(R.is_fail(r))
                self.fail(s)
                st.conds.append(R.is_ok(r))
                st.pos = R.end(r)
                st.top().append(R.rcaps(r))
            else:
                raise Unsupported('instruction %s in the code of a pattern' % nm)

    # --- the first instruction of a compiled pattern
    def headok(self, code=None):
        """a label in front is never followed (after labels) by Char or Set, and by something"""
        P, S = self.P, self.S
        code = self.flatten(code)
        seen = False
        cond = BoolVal(True)
        gs = []
        for x in code:
            if x[0] == 'insn':
                if x[1] in ('Label', 'Nop'):
                    seen = True
                    continue
                if seen and x[1] in ('Char', 'Set'):
                    gs.append(Implies(cond, False))
                return And(*gs) if gs else BoolVal(True)
            if seen:
                return Implies(cond, False)
            if x[0] == 'block':
                cond = And(cond, S.prog.len(x[1]) == 0)
                continue
            if x[0] == 'pre':
                gs.append(Implies(cond, And(x[3] > 0, P.straight(x[1], x[3]))))
                return And(*gs)
            return Implies(cond, False)
        if seen:
            return And(*gs, Implies(cond, False))
        return And(*gs) if gs else BoolVal(True)
