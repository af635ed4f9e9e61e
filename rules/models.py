"""Summaries of the standard-library functions the crate uses (everything else is opaque)."""
from sim import *
from sim import norm_adt

PASS_DEREF = {'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'as_str', 'as_slice', 'as_mut_slice', 'as_bytes', 'by_ref'}
TRANSPARENT = {
    'core::hint::must_use', 'core::convert::identity',
}


def payload(sim, v, variant):
    v0 = strip(v)
    if v0[0] == 'agg': return v0[3][0] if v0[3] else UNIT
    return sim.project(sim.project(v, ('v', variant)), ('f', '0'))


def typename(callee):
    """(head of the receiver type, method) of an inherent or trait method."""
    return callee.rpath


def model(sim, st, cx, callee, args, site, t):
    p, m = callee.rpath, callee.method
    # ---- Option / Result
    for pre, adt, good, bad in (('core::option::Option::', OPT, 'Some', 'None'), ('core::result::Result::', RES, 'Ok', 'Err')):
        if p.startswith(pre): return opt_model(sim, st, cx, adt, good, bad, p[len(pre):], args, site)
    if m == 'branch' and callee.trait and callee.trait.endswith('ops::Try'):
        adt = OPT if 'option' in p else RES
        out = []
        for s, v in sim.variants(st, args[0], adt):
            pay = payload(sim, args[0], v) if v != 'None' else None
            if v in ('Some', 'Ok'): out.append((s, ('agg', CF, 'Continue', (pay,), ('0',))))
            else:
                res = NONE if v == 'None' else err(pay)
                out.append((s, ('agg', CF, 'Break', (res,), ('0',))))
        return out
    if m == 'from_residual' and callee.trait and callee.trait.endswith('FromResidual'):
        v = strip(args[0])
        if v[0] == 'agg' and v[2] == 'None': return [(st, NONE)]
        return [(st, err(('conv', payload(sim, v, 'Err'))))]
    if p == '<T as core::convert::Into>::into' or (m == 'from' and callee.trait == 'core::convert::From') or (m == 'into' and callee.trait == 'core::convert::Into'):
        if callee.local: return None
        # Into::into for a local From impl: follow it
        f = local_from(sim, callee)
        if f is not None and f.id not in cx.stack and sim.rule.inline(sim, f): return sim.enter(st, cx, f, args, site)
        if callee.args and len(callee.args) == 2 and callee.args[0] == callee.args[1]: return [(st, args[0])]
        tgt = callee.args[1] if m == 'into' and len(callee.args) > 1 else (callee.args[0] if callee.args else '')
        if strip_ty(tgt).endswith('option::Option'): return [(st, some(args[0]))]
        return [(st, ('conv', args[0], strip_ty(tgt)))]
    if m == 'clone' and callee.trait and callee.trait.endswith('clone::Clone'):
        v = sim.read(st, sim.deref(args[0]))
        if is_const(v): return [(st, v)]
        return [(st, v if v[0] == 'clone' else ('clone', v))]
    if p in ('core::clone::Clone::clone',):
        v = sim.read(st, sim.deref(args[0]))
        return [(st, v if v[0] == 'clone' else ('clone', v))]
    if p in ('std::rc::Rc::clone', 'std::sync::Arc::clone'):
        v = sim.read(st, sim.deref(args[0]))
        return [(st, v if v[0] == 'clone' else ('clone', v))]
    if m in ('deref', 'deref_mut') and callee.trait and 'Deref' in callee.trait:
        if callee.local: return None
        return [(st, ('ref', (('V', ('deref', strip(sim.read(st, sim.deref(args[0]))))), ())))]
    if m in ('as_ref', 'borrow', 'as_str', 'as_slice', 'as_mut_slice', 'as_mut', 'borrow_mut') and (callee.trait in ('core::convert::AsRef', 'core::convert::AsMut', 'core::borrow::Borrow', 'core::borrow::BorrowMut') or p in ('std::vec::Vec::as_slice', 'compact_str::CompactString::as_str', 'std::string::String::as_str', 'our_string::OurString::as_str')):
        return [(st, ('ref', (('V', ('deref', strip(sim.read(st, sim.deref(args[0]))))), ())))]
    if p == 'core::mem::drop':
        sim.rule.on_drop(sim, st, cx, None, ('value', args[0], callee.args[0] if callee.args else ''))
        return [(st, UNIT)]
    if p in ('core::mem::take',):
        lv = sim.deref(args[0])
        old = sim.read(st, lv)
        ty = strip_ty(callee.args[0]) if callee.args else ''
        nv = NONE if ty.endswith('option::Option') else ('c', 'default', ty)
        if ty == 'bool': nv = FALSE
        sim.rule.on_write(sim, st, cx, lv, nv)
        sim.write(st, lv, nv)
        return [(st, old)]
    if p == 'core::mem::replace':
        lv = sim.deref(args[0])
        old = sim.read(st, lv)
        sim.rule.on_write(sim, st, cx, lv, args[1])
        sim.write(st, lv, args[1])
        return [(st, old)]
    if p == 'core::mem::swap':
        a, b = sim.deref(args[0]), sim.deref(args[1])
        va, vb = sim.read(st, a), sim.read(st, b)
        sim.rule.on_write(sim, st, cx, a, vb); sim.write(st, a, vb)
        sim.rule.on_write(sim, st, cx, b, va); sim.write(st, b, va)
        return [(st, UNIT)]
    # ---- calling function values
    if m in ('call', 'call_mut', 'call_once') and callee.trait and callee.trait.startswith('core::ops::Fn'):
        tup = args[1]
        a = tup[3] if tup[0] == 'agg' else tuple(('p', tup, ('f', str(i))) for i in range(1))
        return sim.invoke(st, cx, args[0], a, site)
    # ---- iteration
    if m == 'into_iter' and callee.trait and callee.trait.endswith('IntoIterator'):
        if callee.local: return None
        a = args[0]
        if a[0] in ('iter', 'itermap'): return [(st, a)]
        if a[0] == 'agg' and a[1].endswith('ops::Range'): return [(st, ('iter', a))]
        return [(st, ('iter', a))]
    if m == 'into_iter': return [(st, args[0] if args[0][0] in ('iter', 'itermap') else ('iter', args[0]))]
    if m in ('iter', 'iter_mut', 'drain', 'chars', 'values', 'keys', 'values_mut', 'bytes', 'into_values', 'lines') and args and not callee.local:
        return [(st, ('iter', args[0]) + (('kind', m),) * (m in ('drain',)))]
    if callee.trait and callee.trait.endswith('iter::Iterator') or (args and args[0][0] in ('iter', 'itermap') and '::Iter' in p) or 'iter::zip' in p:
        r = iter_model(sim, st, cx, callee, args, site, t)
        if r is not None: return r
    if p.startswith('core::bool::<impl bool>::'):
        b = args[0]
        out = []
        for val in (True, False):
            s = st.copy()
            if not sim.assume(s, b, val): continue
            if b[0] != 'c': sim.rule.on_branch(sim, s, cx, b, '1' if val else '0')
            if not val: out.append((s, NONE)); continue
            if m == 'then_some': out.append((s, some(args[1])))
            elif m == 'then': out += [(s2, some(v)) for s2, v in sim.invoke(s, cx, args[1], (), site)]
        return out
    if p in TRANSPARENT: return [(st, args[0])]
    if p in ('std::boxed::Box::new', 'core::pin::Pin::new', 'core::pin::Pin::new_unchecked'): return [(st, args[0] if p != 'std::boxed::Box::new' else ('box', args[0]))]
    return None


def bare(t):
    amp = ''
    while t.startswith('&'):
        amp += '&'
        t = t[1:].lstrip()
        if t.startswith("'"): t = t.split(' ', 1)[1] if ' ' in t else t
        if t.startswith('mut '): t = t[4:]
    return amp + strip_ty(t)


def local_from(sim, callee):
    """The crate's own `impl From<A> for B` behind an `Into::into` call."""
    if callee.method != 'into' or len(callee.args) < 2: return None
    src, dst = callee.args[0], callee.args[1]
    cache = sim.prog.__dict__.setdefault('_from', None)
    if cache is None:
        cache = {}
        for f in sim.prog.fns:
            if f.trait in ('std::convert::From', 'core::convert::From') and f.method == 'from' and f.nargs == 1 and not f.promoted:
                cache.setdefault((bare(f.locals[1]), bare(f.selfty)), []).append(f)
        sim.prog._from = cache
    r = cache.get((bare(src), bare(dst)))
    return r[0] if r and len(r) == 1 else None


def opt_model(sim, st, cx, adt, good, bad, m, args, site):
    R = lambda v: ('agg', adt, good, (v,), ('0',))
    recv = args[0]
    byref = m in ('is_some', 'is_none', 'is_ok', 'is_err', 'as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'take', 'replace', 'insert', 'get_or_insert_with', 'get_or_insert', 'is_some_and_ref', 'iter')
    lv = None
    if byref:
        lv = sim.deref(recv)
        recv = sim.read(st, lv)
    out = []
    if m == 'take':
        sim.rule.on_write(sim, st, cx, lv, NONE)
        sim.write(st, lv, NONE)
        return [(st, recv)]
    if m == 'replace':
        sim.rule.on_write(sim, st, cx, lv, some(args[1]))
        sim.write(st, lv, some(args[1]))
        return [(st, recv)]
    if m in ('insert',):
        sim.rule.on_write(sim, st, cx, lv, some(args[1]))
        sim.write(st, lv, some(args[1]))
        return [(st, ('ref', (lv[0], lv[1] + (('v', 'Some'), ('f', '0')))))]
    known = {'get_or_insert', 'is_some', 'is_none', 'is_ok', 'is_err', 'as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'unwrap', 'expect', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default',
             'map', 'map_err', 'and_then', 'ok_or', 'ok_or_else', 'ok', 'err', 'or', 'or_else', 'map_or', 'map_or_else', 'cloned', 'copied', 'filter', 'is_some_and', 'is_ok_and',
             'get_or_insert_with', 'unwrap_err', 'expect_err', 'and', 'inspect', 'flatten', 'is_none_or', 'transpose_', 'unwrap_unchecked', 'zip'}
    if m not in known: return None
    for s, v in list(sim.variants(st, recv, adt)):
        s = s.copy()
        g = v == good
        pay = payload(sim, recv, v) if v != 'None' else None
        if m in ('is_some', 'is_ok'): out.append((s, ('c', 'b', g)))
        elif m in ('is_none', 'is_err'): out.append((s, ('c', 'b', not g)))
        elif m in ('as_ref', 'as_mut'):
            if v == 'None': out.append((s, NONE))
            else: out.append((s, ('agg', adt, v, (('ref', (lv[0], lv[1] + (('v', v), ('f', '0')))),), ('0',))))
        elif m in ('as_deref', 'as_deref_mut'):
            if v == 'None': out.append((s, NONE))
            else: out.append((s, ('agg', adt, v, (('ref', (('V', ('deref', strip(pay))), ())),), ('0',))))
        elif m in ('unwrap', 'expect', 'unwrap_unchecked'):
            if g: out.append((s, pay))
            else: sim.rule.on_assert(sim, s, cx, 'unwrap')
        elif m in ('unwrap_err', 'expect_err'):
            if not g: out.append((s, pay))
            else: sim.rule.on_assert(sim, s, cx, 'unwrap')
        elif m == 'unwrap_or': out.append((s, pay if g else args[1]))
        elif m == 'unwrap_or_default': out.append((s, pay if g else ('c', 'default', '')))
        elif m == 'unwrap_or_else':
            if g: out.append((s, pay))
            else: out += sim.invoke(s, cx, args[1], () if adt == OPT else (pay,), site)
        elif m == 'map':
            if g: out += [(s2, R(x)) for s2, x in sim.invoke(s, cx, args[1], (pay,), site)]
            else: out.append((s, NONE if adt == OPT else err(pay)))
        elif m == 'zip':
            if not g: out.append((s, NONE))
            else:
                for s2, v2 in list(sim.variants(s, args[1], OPT)):
                    out.append((s2.copy(), NONE if v2 == 'None' else R(('agg', '()', '', (pay, payload(sim, args[1], v2)), ('0', '1')))))
        elif m == 'inspect':
            if g: out += [(s2, R(pay)) for s2, x in sim.invoke(s, cx, args[1], (pay,), site)]
            else: out.append((s, NONE if adt == OPT else err(pay)))
        elif m == 'map_err':
            if g: out.append((s, ok(pay)))
            else: out += [(s2, err(x)) for s2, x in sim.invoke(s, cx, args[1], (pay,), site)]
        elif m == 'and_then':
            if g: out += sim.invoke(s, cx, args[1], (pay,), site)
            else: out.append((s, NONE if adt == OPT else err(pay)))
        elif m == 'get_or_insert':
            if not g:
                sim.rule.on_write(sim, s, cx, lv, some(args[1]))
                sim.write(s, lv, some(args[1]))
            out.append((s, ('ref', (lv[0], lv[1] + (('v', 'Some'), ('f', '0'))))))
        elif m == 'and': out.append((s, args[1] if g else (NONE if adt == OPT else err(pay))))
        elif m == 'ok_or': out.append((s, ok(pay) if g else err(args[1])))
        elif m == 'ok_or_else':
            if g: out.append((s, ok(pay)))
            else: out += [(s2, err(x)) for s2, x in sim.invoke(s, cx, args[1], (), site)]
        elif m == 'ok': out.append((s, some(pay) if g else NONE))
        elif m == 'err': out.append((s, some(pay) if not g else NONE))
        elif m == 'or': out.append((s, R(pay) if g else args[1]))
        elif m == 'or_else':
            if g: out.append((s, R(pay)))
            else: out += sim.invoke(s, cx, args[1], () if adt == OPT else (pay,), site)
        elif m == 'map_or':
            if g: out += sim.invoke(s, cx, args[2], (pay,), site)
            else: out.append((s, args[1]))
        elif m == 'map_or_else':
            if g: out += sim.invoke(s, cx, args[2], (pay,), site)
            else: out += sim.invoke(s, cx, args[1], () if adt == OPT else (pay,), site)
        elif m in ('cloned', 'copied'):
            if g:
                x = sim.read(s, sim.deref(pay))
                out.append((s, R(x if is_const(x) or m == 'copied' else ('clone', x))))
            else: out.append((s, NONE if adt == OPT else err(pay)))
        elif m == 'flatten': out.append((s, pay if g else (NONE if adt == OPT else err(pay))))
        elif m in ('filter',):
            if not g: out.append((s, NONE)); continue
            slot = (('V', ('tmp', site)), ())
            s.store[slot] = pay
            for s2, b in sim.invoke(s, cx, args[1], (('ref', slot),), site):
                for val in (True, False):
                    s3 = s2.copy()
                    if sim.assume(s3, b, val): out.append((s3, R(pay) if val else NONE))
        elif m in ('is_some_and', 'is_ok_and', 'is_none_or'):
            if g: out += sim.invoke(s, cx, args[1], (pay,), site)
            else: out.append((s, ('c', 'b', m == 'is_none_or')))
        elif m == 'get_or_insert_with':
            if g: out.append((s, ('ref', (lv[0], lv[1] + (('v', good), ('f', '0'))))))
            else:
                for s2, x in sim.invoke(s, cx, args[1], (), site):
                    sim.rule.on_write(sim, s2, cx, lv, some(x))
                    sim.write(s2, lv, some(x))
                    out.append((s2, ('ref', (lv[0], lv[1] + (('v', 'Some'), ('f', '0'))))))
    return out


ADAPT = {'rev', 'enumerate', 'cloned', 'copied', 'peekable', 'skip', 'take', 'step_by', 'chain', 'fuse', 'by_ref', 'zip'}


def elem(sim, st, it, site):
    if it[0] == 'itermap': return ('elem', it[1], site)
    return ('elem', it, site)


def iter_model(sim, st, cx, callee, args, site, t):
    m, p = callee.method, callee.rpath
    if callee.local: return None
    if p == 'core::iter::zip': return [(st, ('iter', ('zip', args[0], args[1])))]
    if m == 'zip': return [(st, ('iter', ('zip', args[0], args[1])))]
    if m == 'enumerate': return [(st, ('iter', ('enum', args[0])))]
    if m == 'chain': return [(st, ('iter', ('chain', args[0], args[1])))]
    if m in ADAPT: return [(st, args[0] if args[0][0] in ('iter', 'itermap') else ('iter', args[0]))]
    if m in ('map', 'filter', 'filter_map', 'flat_map', 'take_while', 'map_while', 'inspect', 'skip_while'):
        return [(st, ('itermap', args[0] if args[0][0] in ('iter', 'itermap') else ('iter', args[0]), m, args[1]))]
    if m in ('next', 'next_back', 'nth', 'last', 'peek') and args:
        lv = sim.deref(args[0]) if m in ('next', 'next_back', 'nth', 'peek') else None
        it = sim.read(st, lv) if lv is not None else args[0]
        return produce(sim, st, cx, it, site, 0, lv if m == 'next' else None)
    consume = {'collect', 'for_each', 'fold', 'all', 'any', 'count', 'sum', 'product', 'min', 'max', 'find', 'position', 'try_for_each', 'partition', 'extend', 'last', 'find_map', 'min_by', 'max_by', 'unzip', 'try_fold', 'reduce'}
    if m in consume and args:
        it = args[0]
        if it[0] == 'ref':
            it = sim.read(st, it[1])
        if m == 'find_map' and getattr(sim.rule, 'paired', False):   # the yielded value is the closure's
            r = [(st.copy(), NONE)]
            for s, o in produce(sim, st.copy(), cx, it, site):
                if o[2] != 'Some': continue
                for s2, v in sim.invoke(s, cx, args[1], (o[3][0],), site):
                    r += [(s3, some(payload(sim, v, 'Some')) if var == 'Some' else NONE) for s3, var in list(sim.variants(s2, v, OPT))]
            return r
        outs, seen = [st.copy()], {st.key()}
        front = [st]
        clo = [a for a in args[1:] if strip(a)[0] in ('clo', 'fn')]
        for _ in range(4):
            nf = []
            for s in front:
                for s2, o in produce(sim, s, cx, it, site):
                    if o[2] != 'Some': continue
                    e = o[3][0]
                    ends = [s2]
                    for c in clo:
                        slot = (('V', ('tmp', site)), ())
                        a = (e,)
                        if m == 'fold': a = (('acc', site), e)
                        if m in ('find', 'position_', 'partition'):
                            s2.store[slot] = e; a = (('ref', slot),)
                        ends = [x for x, _v in sim.invoke(s2, cx, c, a, site)]
                    for s3 in ends:
                        if s3.key() not in seen:
                            seen.add(s3.key()); nf.append(s3); outs.append(s3.copy())
            front = nf
            if not front: break
        v = ('call', 'iter::' + m, site, tuple(args))
        if depth(v) > 12: v = ('call', 'iter::' + m, site)
        if m in ('find', 'min', 'max', 'last', 'position', 'find_map', 'min_by', 'max_by', 'reduce'):
            r = []
            for s in outs:
                r.append((s, NONE)); r.append((s.copy(), some(sim.fresh(s, elem(sim, s, it, site)))))
            return r
        for s in outs: sim.fresh(s, v)
        if m in ('for_each',): return [(s, UNIT) for s in outs]
        return [(s, v) for s in outs]
    return None


UNROLL = 16


def unrolled(st, it, lv, sim):
    """Exact step of a range with small constant bounds held in a place."""
    if lv is None or it[0] != 'iter' or it[1][0] != 'agg' or not it[1][1].endswith('ops::Range'): return None
    a, b = it[1][3]
    if not (a[0] == 'c' and b[0] == 'c' and a[1] == b[1] == 'i'): return None
    x, y = int(a[2]), int(b[2])
    if x >= y: return [(st, NONE)]
    if y - x > UNROLL: return None
    sim.write(st, lv, ('iter', it[1][:3] + ((('c', 'i', str(x + 1), a[3]), b),) + it[1][4:]))
    return [(st, some(a))]


def produce(sim, st, cx, it, site, d=0, lv=None):
    """One `next()` on an abstract iterator: [(state, Option value)]."""
    r = unrolled(st, it, lv, sim)
    if r is not None: return r
    out = [(st.copy(), NONE)]
    if it[0] == 'itermap':
        for s, o in produce(sim, st, cx, it[1], site, d + 1):
            if o[2] != 'Some': continue
            e = o[3][0]
            if it[2] in ('map',):
                for s2, v in sim.invoke(s, cx, it[3], (e,), (site, d)): out.append((s2, some(v)))
            elif it[2] in ('filter', 'take_while', 'skip_while', 'inspect'):
                slot = (('V', ('tmp', site, d)), ())
                s.store[slot] = e
                for s2, v in sim.invoke(s, cx, it[3], (('ref', slot),), (site, d)):
                    if v == FALSE: out.append((s2, NONE)); continue
                    out.append((s2, some(e)))
            else:
                for s2, v in sim.invoke(s, cx, it[3], (e,), (site, d)):
                    if it[2] in ('filter_map', 'map_while'):
                        for s3, var in list(sim.variants(s2, v, OPT)):
                            out.append((s3, some(payload(sim, v, 'Some')) if var == 'Some' else NONE))
                    else: out.append((s2, some(('elem', v, site))))
        return out
    s = st.copy()
    if getattr(sim.rule, 'numbered', False) and sim.rule.enough(sim, s, it): return out
    e = make_elem(sim, s, it, site)
    out.append((s, some(e)))
    return out


def make_elem(sim, s, it, site):
    if it[0] == 'iter' and isinstance(it[1], tuple) and it[1] and it[1][0] == 'zip':
        return ('agg', '()', '', (make_elem(sim, s, it[1][1], (site, 0)), make_elem(sim, s, it[1][2], (site, 1))), ('0', '1'))
    if it[0] == 'iter' and isinstance(it[1], tuple) and it[1] and it[1][0] == 'enum':
        if getattr(sim.rule, 'paired', False):   # position and element of the same step carry the same number
            site = ('no', sim.rule.number(sim, s, it[1][1]))
            return ('agg', '()', '', (sim.fresh(s, ('idx', it[1][1], site)), sim.fresh(s, ('elem', it[1][1], site))), ('0', '1'))
        i = sim.fresh(s, ('idx', it[1][1], site))
        return ('agg', '()', '', (i, make_elem(sim, s, it[1][1], (site, 1))), ('0', '1'))
    if getattr(sim.rule, 'numbered', False): site = ('no', sim.rule.number(sim, s, it))
    e = sim.fresh(s, ('elem', it, site))
    return sim.cap(e)
