"""The instruction set as the specification sees it: for every instruction of
package isa its opcode constant, its encoded size, and where each operand sits."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
from ..smt import I, B, BYTES, SpecFn, SeqTheory, eq

INSNS = {
    'Char': ('opChar', 2, [('Byte', 'u8', 1)]),
    'Jump': ('opJump', 4, [('Lbl', 'lab', 1)]),
    'Choice': ('opChoice', 4, [('Lbl', 'lab', 1)]),
    'Call': ('opCall', 4, [('Lbl', 'lab', 1)]),
    'Commit': ('opCommit', 4, [('Lbl', 'lab', 1)]),
    'Return': ('opReturn', 2, []),
    'Fail': ('opFail', 2, []),
    'Set': ('opSet', 2, [('Chars', 'set', 1)]),
    'Any': ('opAny', 2, [('N', 'u8', 1)]),
    'PartialCommit': ('opPartialCommit', 4, [('Lbl', 'lab', 1)]),
    'Span': ('opSpan', 2, [('Chars', 'set', 1)]),
    'BackCommit': ('opBackCommit', 4, [('Lbl', 'lab', 1)]),
    'FailTwice': ('opFailTwice', 2, []),
    'Empty': ('opEmpty', 2, [('Op', 'u8', 1)]),
    'TestChar': ('opTestChar', 6, [('Byte', 'u8', 2), ('Lbl', 'lab', 3)]),
    'TestCharNoChoice': ('opTestCharNoChoice', 6, [('Byte', 'u8', 2), ('Lbl', 'lab', 3)]),
    'TestSet': ('opTestSet', 6, [('Chars', 'set', 2), ('Lbl', 'lab', 3)]),
    'TestSetNoChoice': ('opTestSetNoChoice', 6, [('Chars', 'set', 2), ('Lbl', 'lab', 3)]),
    'TestAny': ('opTestAny', 6, [('N', 'u8', 2), ('Lbl', 'lab', 3)]),
    'CaptureBegin': ('opCaptureBegin', 4, [('Id', 'i16', 2)]),
    'CaptureLate': ('opCaptureLate', 4, [('Back', 'u8', 1), ('Id', 'i16', 2)]),
    'CaptureEnd': ('opCaptureEnd', 2, []),
    'CaptureFull': ('opCaptureFull', 4, [('Back', 'u8', 1), ('Id', 'i16', 2)]),
    'MemoOpen': ('opMemoOpen', 6, [('Lbl', 'lab', 1), ('Id', 'i16', 4)]),
    'MemoClose': ('opMemoClose', 2, []),
    'MemoTreeOpen': ('opMemoTreeOpen', 6, [('Lbl', 'lab', 1), ('Id', 'i16', 4)]),
    'MemoTreeInsert': ('opMemoTreeInsert', 2, []),
    'MemoTree': ('opMemoTree', 2, []),
    'MemoTreeClose': ('opMemoTreeClose', 4, [('Id', 'i16', 2)]),
    'CheckBegin': ('opCheckBegin', 6, [('Id', 'i16', 2), ('Flag', 'i16', 4)]),
    'CheckEnd': ('opCheckEnd', 4, [('Checker', 'chk', 1)]),
    'Error': ('opError', 4, [('Message', 'err', 1)]),
    'End': ('opEnd', 2, [('Fail', 'bool', 1)]),
}
NOCODE = ['Label', 'Nop']


def u8(I_, o):
    return BYTES.at(I_, o)


def u16(I_, o):
    return BYTES.at(I_, o) + 256 * BYTES.at(I_, o + 1)


def i16(I_, o):
    v = u16(I_, o)
    return If(v < 32768, v, v - 65536)


def u24(I_, o):
    return 65536 * BYTES.at(I_, o) + u16(I_, o + 1)


def all_insns(prog):
    """every type of package isa that is an instruction (in the current source)"""
    r = []
    for t, ms in sorted(prog.methods.items(), key=lambda kv: prog.name(kv[0])):
        n = prog.name(t)
        if 'insn' in ms and n.startswith('isa.') and n not in ('isa.basic', 'isa.jump'):
            r.append(n)
    return r


class Spec:
    def __init__(self, w):
        self.w = w
        p = self.p = w.p
        self.names = all_insns(p)
        w.iface['isa.Insn'] = self.names
        self.t = p.tstr['isa.Insn']
        self.D = w.D(self.t)
        self.tid = {n[4:]: p.tstr[n] for n in self.names}
        self.prog = w.seq(self.t)

    def op(self, name):
        return self.p.consts['vm.' + INSNS[name][0]]

    def is_(self, x, name):
        return self.D.isbox[self.tid[name]](x)

    def field(self, x, name, f):
        t = self.tid[name]
        return self.w.D(t).acc[self.p.field_index(t, f)](self.D.unbox[t](x))

    def size(self, x):
        r = IntVal(0)
        for n, (op, sz, fs) in INSNS.items():
            r = If(self.is_(x, n), IntVal(sz), r)
        return r

    def known(self, x):
        return Or(*[self.is_(x, n) for n in list(INSNS) + NOCODE])

    def isa(self, x, names):
        return Or(*[self.is_(x, n) for n in names])
