"""P37: reported types, accessors and conversions name the same kind of value."""
from h import *
from stepm import *
from base import Missing

V, SV, TY, JS = 'runtime::Value', 'runtime::SimpleValue', 'runtime::Type', 'serde_json::Value'
ANY = object()
CLEAR = {'new', 'as_bytes', 'into_bytes', 'to_compact_string', 'borrowed', 'into_vec', 'get', 'to_owned', 'from_f64', 'as_f64', 'borrow', 'deref', 'as_str', 'clone', 'to_string', 'into', 'from', 'as_ref', 'into_boxed_str', 'from_iter', 'into_iter', 'iter', 'unwrap', 'into_string', 'as_slice', 'to_vec', 'cloned', 'copied', 'into_inner', 'from_utf8', 'collect'}


def pure(v): return ('ref', (('V', ('pure', v)), ()))


class Conv(Plain):
    """Inlines everything but the conversions themselves; recursive calls become ('rec', argument)."""
    opaque = ('::get_type', '::parse_number', '::stringify_number')
    def __init__(self, p, f, inner=False):
        Plain.__init__(self, p)
        self.root, self.inner = f, inner
        self.init_rs = ()
    def on_write(self, sim, st, cx, lv, val):
        if val[0] == 'agg' and val[1] == '[]': st.rs = st.rs + (('array', tuple(norm(deepread(sim, st, x)) for x in val[3])),)
        if lv[1] and any(x[0] == 'f' for x in lv[1]) and norm(sim.read(st, (lv[0], ()))) == ('x',) and ('changed', lv[1]) not in st.rs: st.rs = st.rs + (('changed', lv[1]),)
    def on_branch(self, sim, st, cx, v, choice):
        if norm(v) == ('x',): st.rs = st.rs + (('known', choice),)
    def recursive(self, cid):
        return cid == self.root.id or cid in self.prog.reach(self.prog.callgraph.get(cid, ()))
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        if callee.local and (callee.local == self.root.id or callee.local in cx.stack or (self.inner and self.recursive(callee.local))):
            return [(st, ('rec', self.payload(sim, st, args)))]
        if callee.method == 'next' and ('next',) not in st.rs: st.rs = st.rs + (('next',),)
        if callee.method in ('as_f64', 'from_f64') and callee.crate == 'serde_json': return [(st, ('call', callee.rpath, site, tuple(deepread(sim, st, a) for a in args)))]
        if callee.method in ('push', 'push_back', 'insert', 'extend', 'push_front') and 'Vec' in callee.rpath and callee.crate in ('alloc', 'core', 'std') and len(args) == 2:
            ev = (callee.method, norm(deepread(sim, st, args[1])))
            if ev not in st.rs: st.rs = st.rs + (ev,)
            return [(st, UNIT)]
    def payload(self, sim, st, args):
        for a in args:
            n = norm(deepread(sim, st, a))
            if n[0] in ('elem', 'x', 'part'): return n
        return norm(deepread(sim, st, args[0])) if args else ('?',)


def norm(v, d=0):
    """v without the wrappers that only change its representation: ('x',) the payload, ('elem', x) an element of it, ('map', x, F), ('rec', x), ..."""
    v = strip(v)
    if d > 40: return ('?',)
    n = lambda x: norm(x, d + 1)
    if v == ('fld', '0'): return ('x',)
    if v[0] == 'rec': return v
    if v[0] == 'deref': return n(v[1])
    if v[0] == 'ref':
        base, projs = v[1]
        if base[0] == 'V' and not projs: return n(base[1])
        if base[0] == 'V' and base[1][0] == 'pure':
            v = base[1][1]
            if not projs: return n(v)
            if v[0] == 'agg' and len(projs) == 2 and projs[0] == ('v', v[2]) and projs[1][1] in v[4]: return n(v[3][v[4].index(projs[1][1])])
        return ('?', 'ref')
    if v[0] == 'init' and v[1][0][0] == 'V' and not v[1][1]: return n(v[1][0][1])
    if v[0] == 'pure': return n(v[1])
    if v[0] == 'V': return n(v[1])
    if v[0] == 'p':
        if v[2] in (('f', '0'), ('f', '1')) and v[1][0] == 'p' and v[1][2][0] == 'v' and v[1][2][1] in ('Ok', 'Some', 'Continue', 'Err', 'Break'):
            i = n(v[1][1])
            return i if v[1][2][1] in ('Ok', 'Some', 'Continue') else ('err', i)
        if v[2][0] == 'f':
            i = n(v[1])
            return ('part', i, v[2][1]) if i[0] in ('elem', 'part') else ('?', 'p')
        return ('?', 'p')
    if v[0] == 'elem':
        i = n(v[1])
        return ('elem', i) if i == ('x',) else ('?', 'elem')
    if v[0] == 'iter': return n(v[1])
    if v[0] == 'itermap':
        i = n(v[1])
        return ('map', i, v[3]) if v[2] == 'map' and i == ('x',) else ('?', v[2])
    if v[0] == 'call':
        m = str(v[1]).rsplit('::', 1)[-1]
        if m in ('parse_number', 'stringify_number', 'get_type', 'base64_encode', 'base64_decode', 'xml_escape', 'xml_unescape') and len(v) > 3: return (m, n(v[3][-1]))
        if len(v) > 3 and (m in CLEAR) and v[3]:
            return n(v[3][-1])
        return ('?', m)
    if v[0] == 'agg':
        if v[2] in ('Ok', 'Some') and len(v[3]) == 1: return n(v[3][0])
        return ('agg', v[1], v[2], tuple(n(x) for x in v[3]))
    if v[0] == 'box': return n(v[1])
    return ('?', v[0])


def fns(p, adt, m, trait=None):
    fs = [f for f in p.fns if f.method == m and f.selfadt and strip_ty(f.selfadt) == adt and not f.promoted and f.kind != 'Closure' and (trait is None or (f.trait or '').endswith(trait))]
    if len(fs) != 1: raise Missing(f'{adt}::{m}')
    return fs[0]


def outcomes(c, p, f, arg, inner=False):
    rule = Conv(p, f, inner)
    sim = Sim(p, rule, 30000)
    sim.argdepth = 40
    ex = list(sim.run(f, arg, St({}, {}, ())))
    c.count('conversion paths', len(ex))
    return [(st, deepread(sim, st, ret)) for st, ret in ex]


def known(st, v):
    """v is a constant which the payload is known to equal on this path"""
    v = strip(v)
    if v[0] != 'c': return False
    t = str(v[-1]).lower()
    t = {'true': '1', 'false': '0'}.get(t, t)
    return any(e[0] == 'known' and (e[1] in (t, ('is', t)) or t in ('0', '1') and e[1] == ('not', frozenset({'10'[int(t)]}))) for e in st.rs)


def kind_of(ret):
    """('ok', variant, payload) / ('err', error) / ('?',)"""
    if ret[0] == 'agg' and ret[1].endswith('result::Result'):
        i = strip(ret[3][0])
        if ret[2] == 'Err': return ('err', i)
        ret = i
    ret = strip(ret)
    if ret[0] == 'agg' and ret[2]: return ('ok', ret[1], ret[2], ret[3])
    return ('ok', None, None, (ret,))


def element(c, p, f, F, want, where):
    """The function mapped over a list converts each element by the conversion itself."""
    if F[0] == 'fn': return F[2] == f.id or recursive_into(p, F[2], f)
    if F[0] != 'clo': return False
    g = p.by_id[F[1]]
    e = ('elem', ('iter', ('fld', '0')), 0)
    rule = Conv(p, f, True)
    sim = Sim(p, rule, 5000); sim.argdepth = 40
    outs = []
    st0 = St({}, {}, ())
    for st, ret in sim.run(g, (pure(F) if g.locals[1].startswith('&') else F,) + ((e,) if g.nargs == 2 else tuple(('p', e, ('f', str(i))) for i in range(g.nargs - 1))), st0):
        outs.append((norm(deepread(sim, st, ret)), deepread(sim, st, ret), st))
    return want(outs)


def recursive_into(p, a, f): return a in p.by_id and f.id in p.reach([a])


def rec_elem(outs):
    good = False
    for n, raw, st in outs:
        if n == ('rec', ('elem', ('x',))): good = True
        elif raw[0] == 'agg' and raw[2] == 'Err': continue
        else: return False
    return good


KEYVALUE = (('agg', SV, 'Text', (('part', ('elem', ('x',)), '0'),)), ('rec', ('part', ('elem', ('x',)), '1')))


def rec_pair(outs):
    """Each (key, value) becomes the two-element list of the key's text and the converted value."""
    good = False
    for n, raw, st in outs:
        if raw[0] == 'agg' and raw[2] == 'Err': continue
        s = str(n)
        arrs = [x for k, x in st.rs if k == 'array']
        if n[0] == 'agg' and n[2] == 'List' and len(arrs) == 1 and arrs[0] == KEYVALUE: good = True
        else: return False
    return good


def table(c, p, f, mk, source, spec, what, lists, skip=()):
    """f maps each variant of `source` as spec says: variant -> (result adt, result variant) or ('err', predicate)."""
    name = f.path
    vs = p.variants(source)
    if vs is None: raise Missing(source)
    for v in vs:
        if v in skip: continue
        c.count('kinds converted')
        want = spec.get(v)
        if want is None:
            c.violation(f'{name}:unlisted:{v}', f'`{name}` is given a kind of value ({v}) this rule does not know', f.loc()); continue
        val = mkvariant(p, source, v)
        oks = 0
        for st, ret in outcomes(c, p, f, mk(val)):
            k = kind_of(ret)
            if k[0] == 'err':
                if want[0] == 'err':
                    oks += 1
                    if not want[1](k[1], v): c.violation(f'{name}:error:{v}', f'`{name}` refuses {v} with the wrong error ({short(k[1])})', f.loc())
                elif not (v in lists and (norm(k[1])[0] == 'err' or norm(k[1])[0] == 'map' or 'Cyclic' in str(k[1]) or pushes_elem(k[1]))):
                    if not (len(want) > 3 and want[3](k[1], v)): c.violation(f'{name}:refused:{v}', f'`{name}` refuses {v}', f.loc())
                continue
            if want[0] == 'err':
                c.violation(f'{name}:accepted:{v}', f'`{name}` turns {v}, which it must refuse, into {short(k)}', f.loc()); continue
            if k[1] != want[0] and not (want[0] is None) or k[2] != want[1]:
                c.violation(f'{name}:kind:{v}', f'`{name}` turns {v} into {k[1]}::{k[2]} instead of {want[0]}::{want[1]}', f.loc()); continue
            oks += 1
            pay = norm(k[3][0]) if k[3] else None
            if k[3] and known(st, k[3][0]): pay = ('x',)
            if any(e[0] == 'changed' for e in st.rs): c.violation(f'{name}:changed:{v}', f'`{name}` changes part of {v}', f.loc())
            if v in lists:
                if pay[0] == 'map':
                    if not element(c, p, f, pay[2], want[2] if len(want) > 2 and want[2] else rec_elem, name):
                        c.violation(f'{name}:elements:{v}', f'`{name}` does not convert every element of a list by the same rule', f.loc())
                elif any(e[0] in ('push', 'push_back') for e in st.rs):
                    bad = [e for e in st.rs if e[0] in ('insert', 'extend', 'push_front') or e[0] in ('push', 'push_back') and (e[1] != ('rec', ('elem', ('x',))) and v == 'List')]
                    if bad or skips(p, f): c.violation(f'{name}:elements:{v}', f'`{name}` does not convert every element of a list by the same rule', f.loc())
                elif ('next',) in st.rs and not any(e[0] in ('insert', 'extend', 'push_front', 'array') for e in st.rs) and pay[0] == '?' and pay[1] in ('new', 'with_capacity', 'default'): c.count('list conversions without elements')
                else: c.violation(f'{name}:elements:{v}', f'`{name}` does not convert the elements of a list in order ({short(k[3])})', f.loc())
            elif not (len(want) > 2 and want[2] is ANY) and pay != (want[2] if len(want) > 2 and want[2] else ('x',)) and not (want[1] is not None and not k[3]):
                c.violation(f'{name}:payload:{v}', f'`{name}` changes the contents of {v} ({short(k[3])})', f.loc())
        if not oks: c.violation(f'{name}:none:{v}', f'`{name}` has no outcome for {v}', f.loc())


PUSH = ('push', 'push_back')


def skips(p, f):
    """A loop over a list that can pass an element by without adding anything to the result."""
    def pushing(cl): return cl.method in PUSH or (cl.local and any(x.method in PUSH for g in p.reach([cl.local]) for x in p.by_id[g].callees.values()))
    for b, cl in f.callees.items():
        if cl.method != 'next' or not cl.args or not any(k in cl.args[0] for k in ('vec::IntoIter', 'vec_deque::', 'slice::Iter', 'map::IntoIter')): continue
        seen, work = set(), list(f.succ(b))
        while work:
            x = work.pop()
            if x == b: return True
            if x in seen or f.blocks[x].cleanup or (x in f.callees and pushing(f.callees[x])): continue
            seen.add(x); work += f.succ(x)
    return False


def pushes_elem(e): return norm(e)[0] == 'rec' or norm(e) == ('err', ('rec', ('elem', ('x',))))


def short(v): return str(v)[:120]


def typ(v, t):
    """v denotes Type::t"""
    v = strip(v)
    return v[0] == 'agg' and v[1] == TY and v[2] == t


def gottype(v, kind):
    """v denotes the type of the value under conversion (of that kind)"""
    v = strip(v)
    if v[0] == 'call' and str(v[1]).endswith('get_type') and len(v) > 3:
        a = v[3][0]
        return a[0] == 'ref' and a[1][0][0] == 'V' and a[1][0][1][0] == 'pure' and not a[1][1] or norm(a)[0] == 'agg'
    return typ(v, kind)


def conversion(expected):
    def ok(e, kind):
        e = strip(e)
        fs = fields_of(e)
        return 'got' in fs and 'expected' in fs and gottype(fs['got'], kind) and typ(fs['expected'], expected)
    return ok


def complex_type(e, kind):
    e = strip(e)
    return e[0] == 'agg' and e[2] == 'ComplexType' and gottype(e[3][0], kind)


def named(n): return lambda e, kind: strip(e)[0] == 'agg' and strip(e)[2] == n


# accessor -> kinds it documents, with what it yields
ACCEPT = {
    'as_bool': ('Bool', {'Bool': ('x',)}),
    'as_number': ('Number', {'Number': ('x',), 'Text': ('parse_number', ('x',))}),
    'as_text': ('Text', {'Text': ('x',), 'Number': ('stringify_number', ('x',))}),
    'as_image': ('Image', {'Image': ('x',)}),
    'as_audio': ('Audio', {'Audio': ('x',)}),
    'as_list': ('List', {'List': ('x',)}),
    'as_closure': ('Closure', {'Closure': ('x',)}),
    'as_entity': ('Entity', {'Entity': ('x',)}),
}


def accessors(c, p):
    for f in all_methods(p, V):
        if f.trait or not f.method or not f.method.startswith('as_') or not f.out or 'ConversionError' not in f.out: continue
        c.count('accessors')
        if f.method not in ACCEPT:
            t = f.method[3:].capitalize()
            if t not in p.variants(V): c.violation(f'accessor:{f.method}', f'cannot tell what `{f.method}` documents', f.loc()); continue
            exp, acc = t, {t: ('x',)}
        else: exp, acc = ACCEPT[f.method]
        for v in p.variants(V):
            c.count('kinds per accessor')
            val = mkvariant(p, V, v)
            good = 0
            for st, ret in outcomes(c, p, f, (pure(val),)):
                k = kind_of(ret)
                if k[0] == 'err':
                    if v in acc and acc[v] == ('x',): c.violation(f'{f.method}:refuses:{v}', f'`{f.path}` refuses {v}', f.loc())
                    elif not conversion(exp)(k[1], v): c.violation(f'{f.method}:error:{v}', f'the error of `{f.path}` for {v} does not state what it got and what it expected ({short(k[1])})', f.loc())
                else:
                    pay = ('x',) if known(st, kind_of(ret)[3][0]) else norm(ret)
                    if v not in acc: c.violation(f'{f.method}:accepts:{v}', f'`{f.path}` accepts {v}', f.loc())
                    elif pay != acc[v]: c.violation(f'{f.method}:payload:{v}', f'`{f.path}` yields something else than the contents of {v} ({short(pay)})', f.loc())
                    else: good += 1
            if v in acc and not good: c.violation(f'{f.method}:none:{v}', f'`{f.path}` never accepts {v}', f.loc())


def same(p, adt, x): return {v: (x, v) for v in p.variants(adt)}


def check(c):
    p = c.p
    vs = p.variants(V)
    if vs is None: raise Missing(V)
    c.rule('for each kind of value: get_type, BasicType::to_type and the native types of the host name that same kind')
    f = fns(p, V, 'get_type')
    spec = {v: (TY, v) for v in vs}
    spec['Native'] = (TY, 'Native', ('get_type', ('x',)))
    table(c, p, f, lambda v: (pure(v),), V, spec, 'type', ())
    bt = 'bytecode::BasicType'
    g = fns(p, bt, 'to_type')
    table(c, p, g, lambda v: (v,), bt, {v: (TY, v) for v in p.variants(bt)}, 'type', ())
    for prog in (p, c.nb):
        for f in prog.fns:
            if f.method != 'get_type' or f.promoted or f.kind == 'Closure' or not f.selfadt or strip_ty(f.selfadt) == V: continue
            a = strip_ty(f.selfadt)
            if not prog.variants(a) or len(prog.variants(a)) < 2: continue
            for v in prog.variants(a):
                c.count('native kinds')
                for st, ret in outcomes(c, prog, f, (pure(mkvariant(prog, a, v)),)):
                    r = strip(ret)
                    if not (r[0] == 'agg' and r[2] == v): c.violation(f'{f.path}:{v}', f'`{f.path}` names {v} something else ({short(r)})', f.loc())
    c.rule('for each accessor and each kind of value: it succeeds exactly on the kinds it documents, with that value\'s contents, and otherwise fails with an error whose `got` is the value\'s own type and whose `expected` is the accessor\'s')
    accessors(c, p)
    c.rule('for each kind of value and each conversion to or from the external forms (SimpleValue, JSON, NetsBlox JSON): the result is the same kind with the same contents, list elements converted one by one in order by the same conversion; kinds that cannot be represented are refused with an error naming their own kind')
    spec = {v: (SV, v) if v in p.variants(SV) else ('err', complex_type) for v in vs}
    table(c, p, fns(p, V, 'to_simple'), lambda v: (pure(v),), V, spec, 'simple', ('List',))
    table(c, p, fns(p, V, 'from_simple'), lambda v: (obj('mc'), v), SV, same(p, SV, V), 'value', ('List',))
    j = {'Bool': (JS, 'Bool'), 'Number': (JS, 'Number'), 'Text': (JS, 'String'), 'List': (JS, 'Array'), 'Image': ('err', complex_type), 'Audio': ('err', complex_type)}
    table(c, p, fns(p, SV, 'into_json'), lambda v: (v,), SV, j, 'json', ('List',))
    r = {'Null': ('err', named('Null')), 'Bool': (SV, 'Bool'), 'Number': (SV, 'Number'), 'String': (SV, 'Text'), 'Array': (SV, 'List'), 'Object': (SV, 'List', rec_pair)}
    table(c, p, fns(p, SV, 'from_json'), lambda v: (v,), JS, r, 'simple', ('Array', 'Object'))
    c.rule('NetsBlox JSON: plain kinds as above; an image or audio clip is written under the tag and attributes it is read from, its bytes through base64 and back, its name escaped and unescaped, its centre from both coordinates')
    nj = dict(j, Image=(JS, 'String', ANY), Audio=(JS, 'String', ANY))
    table(c, p, fns(p, SV, 'into_netsblox_json'), lambda v: (v,), SV, {k: v for k, v in nj.items()}, 'json', ('List',))
    table(c, p, fns(p, SV, 'from_netsblox_json'), lambda v: (v,), JS, r, 'simple', ('Array', 'Object'), ('String',))
    media(c, p)
    coding(c, p)
    c.rule('each conversion error an instruction raises reports the type of the value it looked at, which on that path is known not to be the type it says it expected')
    raised(c, p)
    c.floor('kinds converted', 35); c.floor('accessors', 8); c.floor('kinds per accessor', 72); c.floor('native kinds', 2)


# ------------------------------------------------------------ images and audio inside NetsBlox JSON

def text_of(sim, st, v):
    v = strip(v)
    for _ in range(4):
        if v[0] == 'ref':
            b, pr = v[1]
            v = strip(b[1]) if b[0] == 'V' and not pr else strip(sim.read(st, v[1]))
    if v[0] == 'c' and v[1] == 'txt' and v[2].startswith('"'):
        import ast
        try: return ast.literal_eval(v[2])
        except (ValueError, SyntaxError): return None
    return v[2] if v[0] == 'c' and v[1] == 's' else None


class Tags(Plain):
    """rs = (tag, attribute, prefix) established on the path; spans, decoded bytes, parsed numbers become symbols."""
    def __init__(self, p, f):
        Plain.__init__(self, p)
        self.root = f
        self.init_rs = (None, None, None, frozenset())
        self.rejects = set()
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is None: return None
        m = callee.method
        tag, attr, pre, seen = st.rs
        if m == 'next' and args and 'xmlparser' in (callee.rpath + str(callee.implty)):
            st.rs = (tag, None, None, seen); return None
        if m == 'as_str' and 'StrSpan' in callee.rpath: return [(st, ('span', tag, attr))]
        if m in ('eq', 'starts_with') and len(args) == 2:
            ts = [text_of(sim, st, a) for a in args]
            t = next((x for x in ts if x is not None), None)
            if t is None: return None
            s = st.copy()
            if m == 'starts_with': st.rs = (tag, attr, t, seen)
            else: st.rs = (t, None, None, seen) if tag is None else (tag, t, None, seen | {t})
            return [(st, TRUE), (s, FALSE)]
        if m == 'strip_prefix' and len(args) == 2:
            t = text_of(sim, st, args[1])
            if t is None: return None
            s = st.copy()
            st.rs = (tag, attr, t, seen)
            return [(st, some(deepread(sim, st, args[0]))), (s, none())]
        if m in ('nth', 'split_once') and len(args) == 2:
            s = st.copy()
            return [(st, some(('piece',) if m == 'nth' else ('agg', '()', '', (('head',), ('piece',)), ('0', '1')))), (s, none())]
        if m == 'base64_decode':
            s = st.copy()
            return [(st, ok(('bytes', tag, attr, pre, 'piece' in str(deepread(sim, st, args[-1]))))), (s, err(('bad64',)))]
        if m == 'xml_unescape':
            s = st.copy()
            return [(st, ok(('plain', self.sym(sim, st, args[0])))), (s, err(('badxml',)))]
        if m == 'parse' and callee.crate in ('core', 'std', 'alloc'):
            s = st.copy()
            return [(st, ok(('num', self.sym(sim, st, args[0])))), (s, err(('badnum',)))]
        if callee.rpath.endswith('CheckedFloat::new'):
            s = st.copy()
            return [(st, ok(deepread(sim, st, args[0]))), (s, err(('badnum',)))]
        if m == 'zip' and 'Option' in callee.rpath: return [(st, ('zip', deepread(sim, st, args[0]), deepread(sim, st, args[1])))]
        if m in ('insert', 'replace') and 'Option' in callee.rpath: return None
    def sym(self, sim, st, v): return peel(deepread(sim, st, v))


def some(v): return ('agg', 'core::option::Option', 'Some', (v,), ('0',))
def none(): return ('agg', 'core::option::Option', 'None', (), ())
def ok(v): return ('agg', 'core::result::Result', 'Ok', (v,), ('0',))
def err(v): return ('agg', 'core::result::Result', 'Err', (v,), ('0',))


def peel(v):
    v = strip(v)
    for _ in range(12):
        if v[0] in ('conv', 'clone'): v = strip(v[1])
        elif v[0] == 'ref' and v[1][0][0] == 'V' and not v[1][1]: v = strip(v[1][0][1])
        elif v[0] == 'init' and v[1][0][0] == 'V' and not v[1][1]: v = strip(v[1][0][1])
        elif v[0] in ('deref', 'pure', 'V'): v = strip(v[1])
        elif v[0] == 'p' and v[1][0] == 'p' and v[1][2][1] in ('Ok', 'Some') : v = strip(v[1][1])
        else: break
    return v


def reader(c, p):
    """What from_netsblox_json recognises: tag -> (attribute of the name, of the content, of the centre, prefix)."""
    f = fns(p, SV, 'from_netsblox_json')
    rule = Tags(p, f)
    sim = Sim(p, rule, 120000); sim.argdepth = 12
    found = {}
    for st, ret in sim.run(f, (mkvariant(p, JS, 'String'),), St({}, {}, rule.init_rs)):
        c.count('paths through embedded media')
        ret = deepread(sim, st, ret)
        k = kind_of(ret)
        if k[0] == 'err': continue
        if k[2] == 'Text':
            if norm(k[3][0]) != ('x',): c.violation('netsblox:text', 'text that is not embedded media is not kept as it is', f.loc())
            continue
        if k[2] not in ('Image', 'Audio'):
            c.violation(f'netsblox:kind:{k[2]}', f'text is turned into {k[2]}', f.loc()); continue
        fs = fields_of(strip(k[3][0]))
        con, name = peel(fs['content']), peel(fs['name'])
        d = found.setdefault(k[2], dict(tag=set(), content=set(), name=set(), centre=set()))
        d['tag'].add(st.rs[0])
        d['content'].add(con); d['name'].add(name)
        if 'name' in st.rs[3] and name[0] == 'c': c.violation(f'netsblox:dropped-name:{k[2]}', f'the name of {k[2]} is read but not always kept', f.loc())
        if 'center' in fs:
            z = strip(fs['center'])
            d['centre'].add(z)
            if {'center-x', 'center-y'} <= st.rs[3] and (z == none() or z[0] == 'zip' and none() in z[1:]): c.violation(f'netsblox:dropped-centre:{k[2]}', f'the centre of {k[2]} is read but not always kept', f.loc())
    return f, found


class Fmt(Conv):
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None:
            if callee.method in ('xml_escape', 'base64_encode'):
                return [(st, (callee.method, peel(deepread(sim, st, args[-1]))))]
            if callee.rpath.startswith('core::fmt::rt::Argument'):
                st.rs = st.rs + (('arg', peel(deepread(sim, st, args[0]))),); return None
            if callee.rpath.startswith('core::fmt::Arguments::new') or 'Arguments' in callee.rpath and callee.method.startswith('new'):
                t = strip(args[0])
                if t[0] == 'ref' and t[1][0][0] == 'V': t = t[1][0][1]
                st.rs = st.rs + (('tmpl', t),)
                return None
        return Conv.on_call(self, sim, st, cx, callee, args, site)


def template(t):
    """Literal pieces of a format template."""
    if t[0] == 'c' and t[1] == 's': return [t[2]]
    if t[0] != 'c' or t[1] != 'txt': return None
    import ast
    try: b = ast.literal_eval(t[2])
    except (ValueError, SyntaxError): return None
    out, i = [], 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80: out.append(b[i:i + n].decode('utf8', 'replace')); i += n
        elif n == 0x80:
            k = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + k].decode('utf8', 'replace')); i += 2 + k
        else:
            # a placeholder; anything but a plain one (an argument index aside) may change the text of the value
            i += (n & 1) * 4 + (n & 2) + (n & 4) // 2 + (n & 8) // 4
            out.append(None if not n & 0x37 else '\1')
    return out


def writer(c, p):
    f = fns(p, SV, 'into_netsblox_json')
    out = {}
    for v, ad in (('Image', 'runtime::Image'), ('Audio', 'runtime::Audio')):
        rule = Fmt(p, f)
        sim = Sim(p, rule, 30000); sim.argdepth = 12
        media = mkvariant(p, ad, None)
        val = ('agg', SV, v, (media,), ('0',))
        for st, ret in sim.run(f, (val,), St({}, {}, ())):
            c.count('paths through embedded media')
            k = kind_of(deepread(sim, st, ret))
            if k[2] != 'String': c.violation(f'netsblox:write:{v}', f'{v} is written as {k[2]}', f.loc()); continue
            out.setdefault(v, []).append(st.rs)
    return f, out


def centre_part(v):
    """Which coordinate of the centre v is."""
    v = peel(v)
    for _ in range(6):
        if v[0] == 'call' and len(v) > 3 and str(v[1]).rsplit('::', 1)[-1] in CLEAR and v[3]: v = peel(v[3][-1])
    if v[0] == 'p' and v[2][0] == 'f' and mentions(v[1], lambda x: x == ('fld', 'center')): return v[2][1]
    return None


def coding(c, p):
    """The bytes of media go through one and the same base64 alphabet and padding, in and out, whole."""
    used = set()
    for name, m in (('base64_encode', 'encode'), ('base64_decode', 'decode')):
        f = next((f for f in p.fns if f.kind == 'Fn' and not f.promoted and f.path.endswith('util::' + name)), None)
        if f is None: raise Missing(name)
        for st, ret in outcomes(c, p, f, (pure(('fld', '0')),)):
            r = strip(ret)
            if r[0] == 'agg' and r[2] == 'Err': continue
            if r[0] == 'agg' and r[2] == 'Ok': r = strip(r[3][0])
            calls = [x for x in subvalues(r) if x[:1] == ('call',) and len(x) > 3]
            eng = [x for x in calls if str(x[1]).startswith('base64::') and str(x[1]).rsplit('::', 1)[-1] == m]
            if len(eng) != 1 or any(x not in eng and str(x[1]).rsplit('::', 1)[-1] not in CLEAR for x in calls) or norm(eng[0][3][-1]) != ('x',):
                c.violation(f'coding:{name}', f'`{f.path}` does not {m} exactly what it is given ({short(r)})', f.loc()); continue
            used |= {x for a in eng[0][3][:-1] for x in subvalues(a) if x[:2] == ('c', 'def')}
            c.count('base64 codings')
    if len(used) > 1: c.violation('coding:engine', f'media are written in one base64 alphabet and read in another ({sorted(x[2] for x in used)})', '')
    c.floor('base64 codings', 2)


def media(c, p):
    import re
    rf, rd = reader(c, p)
    wf, wr = writer(c, p)
    for v, tag, attr, pre in (('Image', 'costume', 'image', 'data:image/'), ('Audio', 'sound', 'sound', 'data:audio/')):
        d = rd.get(v)
        if d is None or v not in wr: c.violation(f'netsblox:none:{v}', f'{v} does not survive the NetsBlox JSON form', rf.loc()); continue
        # written form, attribute by attribute
        esc = None
        for rs in wr[v]:
            pieces = [template(e[1]) for e in rs if e[0] == 'tmpl']
            args = [e[1] for e in rs if e[0] == 'arg']
            if None in pieces or not pieces: c.violation(f'netsblox:shape:{v}', f'cannot read how {v} is written', wf.loc()); continue
            if any('\1' in x for x in pieces): c.violation(f'netsblox:style:{v}', f'parts of {v} are written in a style (a width, a precision) that can change them', wf.loc())
            todo = []
            for e in rs:
                if e[0] == 'arg': todo.append(e[1])
                if e[0] != 'tmpl': continue
                lit = template(e[1])
                use = todo[-lit.count(None):] if lit.count(None) else []
                todo = []
                for axis, part in (('x', '0'), ('y', '1')):
                    k = next((i for i, y in enumerate(lit) if y and y.endswith(f' center-{axis}="')), None)
                    if k is None: continue
                    n = lit[:k].count(None)
                    c.count('centre coordinates written')
                    if n >= len(use) or centre_part(use[n]) != part: c.violation(f'netsblox:centre-{axis}', f'center-{axis} is not written from that coordinate of the centre', wf.loc())
            main = [x for x in pieces if any(y and y.startswith('<') for y in x)]
            lit = ''.join(y or '\0' for y in main[0]) if main else ''
            m = re.match(r'<(\w+) ', lit)
            if not m or {m.group(1)} != d['tag']: c.violation(f'netsblox:tag:{v}', f'{v} is written under a tag that is read as something else ({lit[:30]!r} / {sorted(map(str, d["tag"]))})', wf.loc())
            if not re.search(rf'\s{attr}="({re.escape(pre)}[\w/+.-]*);base64,$', lit.split('\0')[-2] if lit.count('\0') else '') : c.violation(f'netsblox:content:{v}', f'the contents of {v} are not written where they are read', wf.loc())
            if not lit.split('\0')[0].endswith(' name="'): c.violation(f'netsblox:name:{v}', f'the name of {v} is not written where it is read', wf.loc())
            names = [a for a in args if a[0] == 'xml_escape' or a == ('fld', 'name')]
            if names == [('xml_escape', ('fld', 'name'))]: esc = True
            elif names == [('fld', 'name')]: esc = False; c.violation(f'netsblox:escape:{v}', f'the name of {v} is written without escaping it', wf.loc())
            else: c.violation(f'netsblox:name-arg:{v}', f'the name of {v} is not what is written', wf.loc())
            if ('base64_encode', ('fld', 'content')) not in args: c.violation(f'netsblox:bytes:{v}', f'the bytes of {v} are not what is written', wf.loc())
        if d['tag'] != {tag}: c.violation(f'netsblox:read-tag:{v}', f'{v} is read from {sorted(map(str, d["tag"]))}', rf.loc())
        if d['content'] != {('bytes', tag, attr, pre, True)}: c.violation(f'netsblox:read-content:{v}', f'the contents of {v} are read from {sorted(map(str, d["content"]))}', rf.loc())
        want = ('plain', ('span', tag, 'name')) if esc else ('span', tag, 'name')
        other = d['name'] - {want}
        if want not in d['name'] or any(x[0] != 'c' for x in other):
            raw = ('span', tag, 'name') in d['name']
            c.violation(f'netsblox:read-name:{v}', f'the name of {v} is {"read without undoing the escaping it was written with" if raw and esc else "not read back from where it was written"}', rf.loc())
        if v == 'Image':
            xs = {x for z in d['centre'] if z[0] == 'zip' for x in z[1:]} | {z for z in d['centre'] if z[0] != 'zip'}
            good = {none(), some(('num', ('span', tag, 'center-x'))), some(('num', ('span', tag, 'center-y')))}
            pairs = {z for z in d['centre'] if z[0] == 'zip'}
            if not pairs or any(x not in (none(), some(('num', ('span', tag, 'center-x')))) or y not in (none(), some(('num', ('span', tag, 'center-y')))) for _, x, y in pairs) or not any(x != none() and y != none() for _, x, y in pairs):
                c.violation('netsblox:centre', f'the centre of an image is not read from center-x and center-y ({short(pairs)})', rf.loc())
    c.floor('paths through embedded media', 10)


# ------------------------------------------------------------ conversion errors raised by the interpreter itself

class Raised(StepRule):
    c = None
    seen = None
    def inline(self, sim, fn):
        if fn.method == 'get_type' or (fn.method or '').startswith('as_'): return False
        return StepRule.inline(self, sim, fn)
    def on_call(self, sim, st, cx, callee, args, site):
        if callee is not None and callee.method == 'get_type' and len(args) == 1:
            x = strip(args[0])
            while x[0] == 'ref': x = strip(sim.read(st, x[1]))
            return [(st, ('typeof', x))]
        return StepRule.on_call(self, sim, st, cx, callee, args, site)
    def on_agg(self, sim, st, cx, val):
        StepRule.on_agg(self, sim, st, cx, val)
        if not (val[2].endswith('ConversionError') or val[1].endswith('ConversionError')) or 'got' not in val[4]: return
        fs = fields_of(val)
        if not strip(fs['expected'])[0] == 'agg': return
        exp = strip(fs['expected'])[2]
        got = strip(fs['got'])
        self.seen.add((self.variant_name, exp))
        if got[0] == 'agg' and got[2] == exp: return self.bad(exp, 'says that it got what it expected')
        if got[0] != 'typeof': return
        x = got[1]
        f = st.facts.get(x)
        if f is None: return self.bad(exp, 'reports the type of a value it has not looked at')
        if (f[0] == 'is' and f[1] == exp) or (f[0] == 'not' and exp not in f[1]): return self.bad(exp, f'may be raised for a value of that very type')
    def bad(self, exp, why):
        self.c.violation(f'raised:{self.variant_name}:{exp}', f'{self.variant_name}: the conversion error expecting {exp} {why}', p_src(self.prog))


def p_src(p):
    import p03
    return p03.rule_src(p)


def raised(c, p):
    seen = set()
    for v in p.variants(INS):
        rule = Raised(p, v)
        rule.c, rule.seen, rule.variant_name = c, seen, v
        c.count('instruction variants')
        run_variant(p, c, v, rule=rule)
    c.count('conversion errors raised by instructions', len(seen))
    for v, e in sorted(seen): c.sample(f'{v}: a conversion error expecting {e} is raised only for other kinds')
    c.floor('instruction variants', 90); c.floor('conversion errors raised by instructions', 6)
