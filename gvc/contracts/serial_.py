"""C14: saving and loading code (vm/code.go: ToBytes, FromBytes, ToJson, FromJson).

The standard library is assumed to behave as documented: gob and JSON encode
the exported fields of a value and decode them again, a gzip stream is complete
once its writer is closed, and reading a gzip stream to its end verifies its
checksum."""
from ..dsl import *
from ..sym import RefV, IfaceV, SliceV, Loc, ObjInfo
from ..smt import BYTES, axiom

L = BYTES.len


def build(w, reg):
    p = w.p
    P = ('C14',)
    for t in ('gzip.Writer', 'gzip.Reader', 'gob.Encoder', 'gob.Decoder', 'bytes.Reader', 'bytes.Buffer'):
        w.ptr_ref.add(t)
    ct = p.tstr['vm.code']
    DC = w.D(ct)
    S = BYTES.sort
    # the formats
    gob = z3.Function('gob_of', DC.sort, S)
    ungob = z3.Function('gob_value', S, DC.sort)
    gobok = z3.Function('gob_wellformed', S, B)
    gobable = z3.Function('gob_can_encode', DC.sort, B)
    gz = z3.Function('gzip_of', S, S)
    head = z3.Function('gzip_header_ok', S, B)
    whole = z3.Function('gzip_stream_ok', S, B)       # including its checksum
    ungz = z3.Function('gzip_content', S, S)
    js = z3.Function('json_of', DC.sort, S)
    unjs = z3.Function('json_value', S, DC.sort)
    jsok = z3.Function('json_wellformed', S, B)
    jsable = z3.Function('json_can_encode', DC.sort, B)
    F = [f['name'] for f in p.fields(ct)]
    acc = {f: DC.acc[i] for i, f in enumerate(F)}

    def same(a, b):
        """equal up to nil and empty lists, which the formats do not tell apart"""
        out = []
        for i, f in enumerate(F):
            t = p.fields(ct)[i]['type']
            if p.kind(t) == 'slice':
                w.seq(p.T(t)['elem'])
                sd = w.slcdt(p.T(t)['elem'])
                out.append(theory_of(sd.data(DC.acc[i](a))).eq(sd.data(DC.acc[i](a)), sd.data(DC.acc[i](b))))
            else:
                out.append(DC.acc[i](a) == DC.acc[i](b))
        return And(*out)
    d_, s_ = z3.Const('d!s', DC.sort), z3.Const('s!s', S)
    axiom(['gob_of'], z3.ForAll([d_], Implies(gobable(d_), And(gobok(gob(d_)), same(ungob(gob(d_)), d_))), patterns=[gob(d_)]), 'encoding/gob: decoding an encoding gives the value back (exported fields)')
    axiom(['json_of'], z3.ForAll([d_], Implies(jsable(d_), And(jsok(js(d_)), same(unjs(js(d_)), d_))), patterns=[js(d_)]), 'encoding/json: decoding an encoding gives the value back (exported fields, valid UTF-8)')
    axiom(['gzip_of'], z3.ForAll([s_], And(head(gz(s_)), whole(gz(s_)), ungz(gz(s_)) == s_), patterns=[gz(s_)]), 'compress/gzip: decompressing a compression gives the data back')
    reg.trusted.append('encoding/gob, encoding/json and compress/gzip round trips as documented (axioms above)')

    # every field of the record (and of its parts) must be visible to the encoders
    def exported(prog, w, reg):
        out = []
        seen = set()

        def visit(t, path):
            T = prog.types[t]
            if t in seen:
                return
            seen.add(t)
            k = prog.kind(t)
            if k == 'struct':
                for f in prog.fields(t):
                    nm = path + '.' + f['name']
                    out.append(('%s is exported' % nm, [], BoolVal(f['name'][:1].isupper())))
                    out.append(('%s is not left out by a tag' % nm, [], BoolVal('"-' not in (f.get('tag') or ''))))
                    visit(f['type'], nm)
            elif k in ('slice', 'array', 'ptr'):
                visit(prog.T(t)['elem'], path + '[]')
        visit(ct, 'code')
        return out
    reg.schemes.append(('the saved record', exported, P))

    # the concrete checkers that may be saved are announced to gob when the package is loaded
    def registered(prog, w, reg):
        have = set()
        for n, f in prog.funcs.items():
            if n == 'vm.init' or n.startswith('vm.init#'):
                types = {x['id']: prog.name(x['x']['t']) for b in f['blocks'] for x in b['instrs'] if x['op'] == 'makeiface'}
                have |= {types.get(x['args'][0].get('n')) for b in f['blocks'] for x in b['instrs'] if x['op'] == 'call' and (x.get('fn') or {}).get('n') == 'encoding/gob.Register'}
        return [('isa.MapChecker is registered with gob', [], BoolVal('isa.MapChecker' in have))]
    reg.schemes.append(('saved checkers', registered, P))

    # ---- streams ----
    def new(st, tname, **kw):
        r = fresh(I, tname.replace('.', '_'))
        st.assume(r > 0)
        st.ghost[('lib', str(r))] = dict(kw)
        return RefV(r, p.tstr[tname])

    def get(st, v):
        if isinstance(v, IfaceV):
            v = v.v
        if isinstance(v, Loc):
            return ('lib', 'loc%s%s' % (v.obj, v.path))
        return ('lib', str(v.term))

    def put(st, v, **kw):
        k = get(st, v)
        d = dict(st.ghost.get(k) or {})
        d.update(kw)
        st.ghost[k] = d

    def state(st, v):
        return st.ghost.get(get(st, v)) or {}

    def err(st, ok):
        e = fresh(I, 'err')
        st.assume((e == 0) == ok)
        return e

    def bytes_of(ex, st, v):
        return SliceV(ex.newobj(st, p.tstr['byte'], v, 'arr', BoolVal(True)), IntVal(0), L(v), L(v), BoolVal(False))

    def gzw(ex, st, x, args):
        return [(st, new(st, 'gzip.Writer', out=get(st, args[0]), data=None))]

    def gzclose(ex, st, x, args):
        z = state(st, args[0])
        d = dict(st.ghost.get(z['out']) or {})
        d['data'] = gz(z['data'] if z['data'] is not None else BYTES.empty)
        st.ghost[z['out']] = d
        return [(st, IntVal(0))]

    def enc(ex, st, x, args):
        return [(st, new(st, 'gob.Encoder', out=get(st, args[0])))]

    def encode(ex, st, x, args):
        v = args[1]
        if not isinstance(v, IfaceV) or v.t != ct:
            raise Unsupported('something else than the code record is saved')
        val = ex.fold(st, v.v, ct)
        out = state(st, args[0])['out']
        d = dict(st.ghost.get(out) or {})
        if d.get('data') is not None:
            raise Unsupported('two values in one stream')
        t = fresh(S, 'written')
        st.assume(Implies(gobable(val), t == gob(val)))
        d['data'] = t
        st.ghost[out] = d
        return [(st, err(st, gobable(val)))]

    def bufbytes(ex, st, x, args):
        d = state(st, args[0]).get('data')
        return [(st, bytes_of(ex, st, fresh(S, 'unfinished') if d is None else d))]

    def rd(ex, st, x, args):
        return [(st, new(st, 'bytes.Reader', data=ex.slice_data(st, args[0])))]

    def gzr(ex, st, x, args):
        d = state(st, args[0])['data']
        r = new(st, 'gzip.Reader', data=d)
        return [(st, TupleV([r, err(st, head(d))]))]

    def dec(ex, st, x, args):
        return [(st, new(st, 'gob.Decoder', src=get(st, args[0])))]

    def target(v):
        if not isinstance(v, IfaceV) or p.kind(v.t) != 'ptr' or p.T(v.t)['elem'] != ct or not isinstance(v.v, Loc):
            raise Unsupported('something else than the code record is loaded')
        return v.v

    def decode(ex, st, x, args):
        loc = target(args[1])
        src = st.ghost[state(st, args[0])['src']]
        data = ungz(src['data'])
        e = fresh(I, 'err')
        # a damaged stream may be noticed here or only at its end
        st.assume(Implies(Not(gobok(data)), e != 0))
        st.assume(Implies(And(gobok(data), whole(src['data'])), e == 0))
        v = fresh(DC.sort, 'loaded')
        st.assume(Implies(e == 0, v == ungob(data)))
        ex.store(st, loc, ex.unfoldv(st, ct, v), ct)
        return [(st, e)]

    def copy(ex, st, x, args):
        src = state(st, args[1])
        return [(st, TupleV([fresh(I, 'n'), err(st, whole(src['data']))]))]

    def marshal(ex, st, x, args):
        v = args[0]
        if not isinstance(v, IfaceV) or v.t != ct:
            raise Unsupported('something else than the code record is saved')
        val = ex.fold(st, v.v, ct)
        t = fresh(S, 'written')
        st.assume(Implies(jsable(val), t == js(val)))
        return [(st, TupleV([bytes_of(ex, st, t), err(st, jsable(val))]))]

    def unmarshal(ex, st, x, args):
        loc = target(args[1])
        data = ex.slice_data(st, args[0])
        e = err(st, jsok(data))
        v = fresh(DC.sort, 'loaded')
        st.assume(Implies(e == 0, v == unjs(data)))
        ex.store(st, loc, ex.unfoldv(st, ct, v), ct)
        return [(st, e)]
    zero = lambda ex, st, x, args: [(st, IntVal(0))]
    reg.externs.update({'compress/gzip.NewWriter': gzw, '(*compress/gzip.Writer).Close': gzclose, 'encoding/gob.NewEncoder': enc, '(*encoding/gob.Encoder).Encode': encode,
                        '(*bytes.Buffer).Bytes': bufbytes, 'bytes.NewReader': rd, 'bytes.NewBuffer': rd, 'compress/gzip.NewReader': gzr, 'encoding/gob.NewDecoder': dec,
                        '(*encoding/gob.Decoder).Decode': decode, 'io.Copy': copy, '(*compress/gzip.Reader).Close': zero, 'encoding/json.Marshal': marshal, 'encoding/json.Unmarshal': unmarshal})
    data = lambda c: c.c.data.term
    reg.contract('(*vm.Code).ToBytes', params=['c'], props=P,
        ensures=lambda c: [('reports exactly what cannot be saved', (c.rets[1] == 0) == gobable(c.old.c.data.term)),
                           ('the complete record, compressed', Implies(c.rets[1] == 0, BYTES.eq(c.rets[0].seq, gz(gob(c.old.c.data.term)))))])
    reg.contract('vm.FromBytes', params=['b'], props=P,
        ensures=lambda c: [('loads exactly the record that was saved', z3.ForAll([d_], Implies(And(gobable(d_), BYTES.eq(c.old.b.seq, gz(gob(d_)))), And(c.rets[1] == 0, same(c.rets[0].data.term, d_))), patterns=[gob(d_)])),
                           ('damaged data is reported', Implies(Not(And(head(c.old.b.seq), gobok(ungz(c.old.b.seq)), whole(c.old.b.seq))), c.rets[1] != 0))])
    reg.contract('(*vm.Code).ToJson', params=['c'], props=P,
        ensures=lambda c: [('reports exactly what cannot be saved', (c.rets[1] == 0) == jsable(c.old.c.data.term)),
                           ('the complete record', Implies(c.rets[1] == 0, BYTES.eq(c.rets[0].seq, js(c.old.c.data.term))))])
    reg.contract('vm.FromJson', params=['b'], props=P,
        ensures=lambda c: [('loads exactly the record that was saved', z3.ForAll([d_], Implies(And(jsable(d_), BYTES.eq(c.old.b.seq, js(d_))), And(c.rets[1] == 0, same(c.rets[0].data.term, d_))), patterns=[js(d_)])),
                           ('damaged data is reported', Implies(Not(jsok(c.old.b.seq)), c.rets[1] != 0))])
    reg.contract('(*vm.Code).Size', params=['c'], props=P, ensures=lambda c: [('bytes of code', c.ret == c.c.data.Insns.len)])
