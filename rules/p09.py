"""P09: an operator block performs the operation it names."""
from compile import *
from terms import *
from sim import TRUE, FALSE
import p02, p08, link
from base import Missing

ATOMS = ('flatten', 'dimensions', 'reshape', 'cartesian_product', 'columns', 'to_csv', 'from_csv', 'prep_index', 'prep_index_set', 'prep_rand_index', 'prep_note', 'identical', 'cmp', 'find', 'to_simple', 'into_json', 'from_json', 'from_simple', 'get_type', 'into_netsblox_json', 'lossless_split')
# instructions whose result depends on comparisons that must be known
BRANCHES = {'VariadicOp', 'BinaryOp', 'ListContains', 'ListFind', 'Cmp', 'Identical'}


class Meaning:
    """What generated instructions do, as terms over their operands."""
    def __init__(self, p):
        self.p, self.cache = p, {}
        self.paths = 0

    def of(self, ins):
        if ins not in self.cache: self.cache[ins] = self.compute(ins)
        return self.cache[ins]

    def compute(self, ins):
        given = dict(zip(ins[4], ins[3]))
        rule = OpRule(self.p, ins[2], atoms=ATOMS, numbered=True, branches=ins[2] in BRANCHES, operands=given)
        me = self
        class C0:
            p = me.p
            def count(self, *a): pass
        rule, sim, ex = run_variant(self.p, C0(), ins[2], rule=rule)
        self.uses_elementwise = getattr(self, 'uses_elementwise', set()) | rule.elementwise_used
        self.chance = getattr(self, 'chance', set()) | rule.elementwise_chance
        out = set()
        self.paths += len(ex)
        for st, r in ex:
            r0 = strip(r)
            if r0[0] == 'agg' and r0[2] == 'Err': continue
            out.add(tuple(tidy(e) for e in st.rs))
        return out


def tidy(e):
    if e[0] == 'sys':
        t = e[1]
        return ('sys', t[0].replace('system.', '')) + tuple(x for x in t[1:] if x not in (('1',), ('self',), ('mc',)))
    return e


def subst(t, f):
    if not isinstance(t, tuple): return t
    r = f(t)
    if r is not None: return r
    return tuple(subst(x, f) for x in t)


def chain(t):
    """t is a chain of views of the token list of the instruction."""
    while isinstance(t, tuple) and len(t) >= 2 and t[0] in ('skip', 'split', 'lossless_split', 'copy', 'iter', 'collect'): t = t[1]
    return isinstance(t, tuple) and t and t[0] == 'tokens'


def compose(mean, fl, L, t, cn):
    """Effects of a block in order, over its inputs: yields (item index, instruction, outcomes)."""
    known = {}
    for n, ins, stack, roles in sorted(L.uses, key=lambda u: u[0]):
        at = dict((d, x) for d, x in stack if d is not None)
        many = [x for d, x in stack if x[0] == 'many']
        raw = fl.items[n][1]
        toks, rest = [], None
        if raw[0] == 'ins':
            for x in raw[1][3]:
                if x[0] == 'joined':
                    loop = []
                    for e in t.events:
                        if e[0] == 'for': loop.append(e[1])
                        elif e[0] == 'end': loop.pop()
                        elif e[0] == 'tok' and e[1] == x[1]:
                            y = strip(e[2])
                            y = ('in', cn(y[1])) if y[0] == 'ast' else ('c', y[2]) if y[0] == 'c' else ('?',)
                            if loop: rest = y
                            elif rest is None: toks.append(y)

        def operand(x):
            if x[0] == 'copy': return ('copy', operand(x[1]))
            if x[0] == 'res': return known.get((x[3], x[2]), ('res', x[1]))
            return ('in', p08.field_of(x))

        def f(u):
            if len(u) == 2 and u[0] == 'in' and isinstance(u[1], tuple):
                x = at.get(u[1])
                return operand(x) if x is not None else ('in', '?')
            if u == ('slice',) and len(many) == 1: return operand(many[0])
            if u and u[0] == 'operands' and len(many) == 1: return operand(many[0])
            if len(u) == 2 and u[0] == 'ast': return ('in', cn(u[1]))
            if len(u) == 3 and u[0] == 'elem' and isinstance(u[2], int) and chain(u[1]): return toks[u[2]] if u[2] < len(toks) else rest or ('none',)
            if u and u[0] in ('skip', 'split', 'lossless_split') and chain(u): return rest or ('none',)
            return None
        outs = sorted({tuple(clean(subst(e, f)) for e in o) for o in mean.of(ins)}, key=repr)
        pushes = [[e[1] for e in o if e[0] == 'push'] for o in outs]
        if outs and all(len(x) == len(pushes[0]) for x in pushes):
            for j in range(len(pushes[0])):
                ts = {x[j] for x in pushes}
                if len(ts) == 1: known[(n, j)] = ts.pop()
        yield n, ins, outs


CONTEXT = (('1',), ('self',), ('mc',), ('system',), ('.', ('.', ('self',), 'global_context'), 'system'))


def clean(t):
    """Spellings of the same thing."""
    if not isinstance(t, tuple) or not t: return t
    if t[0] == 'each' and len(t) == 3 and isinstance(t[2], tuple): return ('each', clean(t[1]), tuple(clean(tidy(e)) for e in t[2]))
    t = tuple(clean(x) for x in t)
    if t[0] in ATOMS: t = t[:1] + tuple(x for x in t[1:] if x not in CONTEXT)
    if t[0] == 'Not' and len(t) == 2 and t[1][:1] in (('eq',), ('ne',), ('Eq',), ('Ne',)): return ({'eq': 'ne', 'ne': 'eq', 'Eq': 'Ne', 'Ne': 'Eq'}[t[1][0]],) + t[1][1:]
    if t[0] == 'format' and len(t) == 2: return t[1]
    if t[0] == '.' and len(t) == 3 and t[2] == '0': return t[1]
    if t[0] == 'new' and len(t) == 2: return t[1]
    if t[0] == 'collect' and len(t) == 2: return t[1]
    if t[0] == 'map' and len(t) == 3 and t[2] == ('item',): return t[1]
    if t[0] == 'map' and len(t) == 3 and isinstance(t[2], tuple) and len(t[2]) > 1 and t[2][0] == 'call' and t[2][1] == 'new' and t[2][2:] == (('item',),): return t[1]
    if t[0] == 'variant' and len(t) == 2: return t[1]
    if t[0] == 'each' and len(t) == 2 and t[1][0] == 'each': return t[1]
    if t[0] in ('next_back', 'back') and len(t) == 2: return ('last', t[1])
    if t[0] == 'format' and len(t) == 2 and isinstance(t[1], tuple) and t[1][:1] == ('new',) and len(t[1]) == 3:
        x = t[1][2]
        if t[1][1] == ('c', 'b"\\xc0\\x00"') and x[0] == '[]' and len(x) == 2 and x[1][0] == 'new_display': return x[1][1]
    if t[0] == 'new' and len(t) == 3 and t[1] == ('c', 'b"\\xc0\\x00"') and t[2][0] == '[]' and len(t[2]) == 2 and t[2][1][0] == 'new_display': return t[2][1][1]
    if t[0] == 'box_assume_init_into_vec_unsafe': return ('vec',)
    if t[0] in ('Text', 'Number', 'Bool', 'List', 'Image', 'Audio') and len(t) == 2: return t[1]
    return t


# ------------------------------------------------------------------ what each block means
def F(x): return ('in', x)
def n(x): return ('as_number', F(x))
def tx(x): return ('as_text', F(x))
def ls(x): return ('as_list', F(x))
def each(x): return ('push', ('each', x))
def P(x): return ('push', x)
def g(x): return ('graphemes', tx(x), ('c', True))
def cmpt(a, b): return ('cmp', F(a), F(b))
def prop(x): return [(('sys', 'perform_request', ('Property', (x,))),)]
def setp(x, f='value'): return [(('sys', 'perform_command', ('SetProperty', (x,), F(f))),)]
def chg(x, f='delta', w=lambda y: y): return [(('sys', 'perform_command', ('ChangeProperty', (x,), w(F(f)))),)]
def cmd(*x): return (('sys', 'perform_command', x),)


EFFECTS = {'Color': 'ColorH', 'Saturation': 'ColorS', 'Brightness': 'ColorV', 'Ghost': 'ColorT', 'Fisheye': 'Fisheye', 'Whirl': 'Whirl', 'Pixelate': 'Pixelate', 'Mosaic': 'Mosaic', 'Negative': 'Negative'}
PEN = {'Size': 'PenSize', 'Hue': 'PenColorH', 'Saturation': 'PenColorS', 'Brightness': 'PenColorV', 'Transparency': 'PenColorT'}
TYPES = {'Sound': 'Audio', 'Costume': 'Image', 'Sprite': 'Entity', 'List': 'List', 'Bool': 'Bool', 'Text': 'Text', 'Number': 'Number'}
now = ('call', 'to_real_local')
UN = lambda *ops: lambda f='value': wrap(ops, n(f))


def wrap(ops, x):
    for o in reversed(ops): x = (o, x)
    return x


def one(*terms): return [(P(x),) for x in terms]
def scalar(x): return [(each(x),)]


# kind (or kind/choice) -> alternatives; an alternative is the list of everything the block may do
SPEC = {
    'Sub': [scalar(('Sub', n('left'), n('right')))], 'Div': [scalar(('Div', n('left'), n('right')))],
    'Pow': [scalar(('powf', n('base'), n('power')))], 'Log': [scalar(('log', n('value'), n('base')))],
    'Atan2': [scalar(('to_degrees', ('atan2', n('y'), n('x'))))],
    'Not': [scalar(('Not', ('as_bool', F('value'))))], 'Neg': [scalar(('neg', n('value')))], 'Abs': [scalar(('abs', n('value')))],
    'Sqrt': [scalar(('sqrt', n('value')))], 'Floor': [scalar(('floor', n('value')))], 'Ceil': [scalar(('ceil', n('value')))], 'Round': [scalar(('round', n('value')))],
    'Sin': [scalar(('sin', ('to_radians', n('value'))))], 'Cos': [scalar(('cos', ('to_radians', n('value'))))], 'Tan': [scalar(('tan', ('to_radians', n('value'))))],
    'Asin': [scalar(('to_degrees', ('asin', n('value'))))], 'Acos': [scalar(('to_degrees', ('acos', n('value'))))], 'Atan': [scalar(('to_degrees', ('atan', n('value'))))],
    'Identical': [one(('identical', F('left'), F('right'))), one(('identical', F('right'), F('left')))],
    'StrLen': [scalar(('len', g('value')))], 'StrGet': [scalar(('nth', g('string'), ('prep_index', F('index'), ('len', g('string')))))],
    'StrGetLast': [scalar(('last', g('string')))],
    'StrGetRandom': [scalar(('nth', g('string'), ('prep_rand_index', ('len', g('string')))))],
    'UnicodeToChar': [scalar(('from_u32', n('value')))],
    'CharToUnicode': [scalar(('chars', tx('value'))) + scalar(('elem', ('chars', tx('value')), 0)), scalar(('chars', tx('value'))) + scalar(('elem', ('chars', tx('value'))))],
    'TextSplit/Custom': [scalar(('split', tx('text'), tx('mode')))], 'TextSplit/Letter': [scalar(g('text'))], 'TextSplit/Word': [scalar(('unicode_words', tx('text')))],
    'TextSplit/Tab': [scalar(('split', tx('text'), ('c', '9')))], 'TextSplit/CR': [scalar(('split', tx('text'), ('c', '13')))], 'TextSplit/LF': [scalar(('lines', tx('text')))],
    'TextSplit/Csv': [scalar(('from_csv', tx('text')))], 'TextSplit/Json': [scalar(('from_simple', ('from_json', ('from_str', tx('text')))))],
    'ListLen': [one(('len', ls('value')))], 'ListRank': [one(('len', ('dimensions', F('value'))))], 'ListDims': [one(('dimensions', F('value'))), one(('map', ('dimensions', F('value')), ('item',)))],
    'ListIsEmpty': [one(('is_empty', ls('value'))), one(('Eq', ('c', '0'), ('len', ls('value'))))],
    'ListFlatten': [one(('flatten', F('value')))], 'ListColumns': [one(('columns', F('value')))], 'ListRev': [one(('rev', ls('value')))],
    'ListCsv': [one(('to_csv', F('value')))], 'ListJson': [one(('into_json', ('to_simple', F('value'))))],
    'ListGetLast': [one(('last', ls('list')))], 'ListGetRandom': [one(('index', ls('list'), ('prep_rand_index', ('len', ls('list')))))],
    'ListGet': [scalar(('index', ls('list'), ('prep_index', F('index'), ('len', ls('list')))))],
    'CopyList': [one(ls('list'))], 'MakeList': [one(F('values'))],
    'ListInsertLast': [[(('mut', 'push_back', ls('list'), F('value')),)]],
    'ListRemoveAll': [[(('mut', 'clear', ls('list')),)]], 'ListRemoveLast': [[(('mut', 'pop_back', ls('list')),)]],
    'ListAssignLast': [[(('mut', 'back_mut', ls('list')),)]],
    'This': [one(('.', ('topof',), 'entity'))],
    'Entity': [one(('Entity', ('call', 'get', ('.', ('.', ('self',), 'global_context'), 'entities'), F('trans_name'))))],
    'Answer': [one(('.', ('self',), 'last_answer'), ('default',))], 'Message': [one(('.', ('self',), 'last_message'), ('default',))],
    'RpcError': [one(('.', ('self',), 'last_rpc_error'), ('default',))],
    'ListCons': [[(('mut', 'push_front', ('copy', ls('list')), F('item')), P(('copy', ls('list'))))]],
    'ListCdr': [[(('mut', 'pop_front', ('copy', ls('value'))), P(('copy', ls('value'))))]],
    'Say/None': [[cmd('Print', ('Say',), F('content')), cmd('Print', ('Say',), ('None',))]], 'Think/None': [[cmd('Print', ('Think',), F('content')), cmd('Print', ('Think',), ('None',))]],
    'Forward': [[cmd('Forward', n('distance'))]], 'GotoXY': [[cmd('GotoXY', n('x'), n('y'))]], 'PointTowardsXY': [[cmd('PointTowardsXY', n('x'), n('y'))]],
    'Goto': [[cmd('GotoEntity', F('target')), cmd('GotoXY', ('as_number', ('index', F('target'), ('c', '0'))), ('as_number', ('index', F('target'), ('c', '1'))))]],
    'PointTowards': [[cmd('PointTowardsEntity', F('target')), cmd('PointTowardsXY', ('as_number', ('index', F('target'), ('c', '0'))), ('as_number', ('index', F('target'), ('c', '1'))))]],
    'PenClear': [[cmd('ClearDrawings')]], 'ClearEffects': [[cmd('ClearEffects')]], 'StopSounds': [[cmd('StopSounds')]],
    'Ask': [[(('sys', 'perform_request', ('Input', F('prompt'))),), (('sys', 'perform_request', ('Input', ('None',))),)]],
    'XPos': [prop('XPos')], 'YPos': [prop('YPos')], 'Heading': [prop('Heading')], 'PenDown': [prop('PenDown')], 'Size': [prop('Size')], 'IsVisible': [prop('Visible')],
    'SetX': [setp('XPos')], 'SetY': [setp('YPos')], 'SetHeading': [setp('Heading')], 'SetPenDown': [setp('PenDown')], 'SetVisible': [setp('Visible')], 'SetSize': [setp('Size')], 'SetPenSize': [setp('PenSize')],
    'SetPenColor': [[(('sys', 'perform_command', ('SetProperty', ('PenColor',), ('from_be_bytes', ('[]', F('color.3'), F('color.0'), F('color.1'), F('color.2'))))),)]],
    'ChangeX': [chg('XPos')], 'ChangeY': [chg('YPos')], 'ChangeSize': [chg('Size')], 'ChangePenSize': [chg('PenSize')], 'TurnRight': [chg('Heading', 'angle')],
    'TurnLeft': [chg('Heading', 'angle', lambda y: ('each', ('neg', ('as_number', y)))), chg('Heading', 'angle', lambda y: ('neg', ('as_number', y)))],
    'UnknownBlock/UnknownBlock': [[(('sys', 'perform_request', ('UnknownBlock', F('name'), F('args'))),)]],
}
TRUTH = {'Eq': {'Equal'}, 'Neq': {'Less', 'Greater'}, 'Less': {'Less'}, 'LessEq': {'Less', 'Equal'}, 'Greater': {'Greater'}, 'GreaterEq': {'Greater', 'Equal'}}
for k, o in EFFECTS.items():
    SPEC[f'Effect/{k}'] = [prop(o)]; SPEC[f'SetEffect/{k}'] = [setp(o)]; SPEC[f'ChangeEffect/{k}'] = [chg(o)]
for k, o in PEN.items():
    SPEC[f'PenAttr/{k}'] = [prop(o)]; SPEC[f'SetPenAttr/{k}'] = [setp(o)]; SPEC[f'ChangePenAttr/{k}'] = [chg(o)]
for k, o in TYPES.items(): SPEC[f'TypeQuery/{k}'] = [one(('call', 'eq', ('get_type', F('value')), (o,))), one(('eq', ('get_type', F('value')), (o,)))]

now = ('call', 'to_real_local', ('local',))
for k, fs in {'Year': ['year'], 'Month': ['month'], 'Date': ['day'], 'DayOfWeek': ['number_from_sunday', 'weekday'], 'Hour': ['hour'], 'Minute': ['minute'], 'Second': ['second']}.items():
    SPEC[f'RealTime/{k}'] = [one(wrap(fs, now)), one(wrap(fs + ['date'], now)), one(wrap(fs + ['time'], now))]
SPEC['RealTime/UnixTimestampMs'] = [one(('Div', ('unix_timestamp_nanos', now), ('c', '1000000')))]
SPEC['Constant/Pi'] = [one(('c', 'core::f64::consts::PI'))]
SPEC['Constant/E'] = [one(('c', 'core::f64::consts::E'))]
for k in ('Number', 'String', 'Bool'): SPEC[k] = [one(F('0'))]
for k in ('Say', 'Think'):
    SPEC[k + '/Some'] = [[SPEC[k + '/None'][0], [cmd('Print', (k,), ('c', '')), cmd('Print', (k,), ('None',))]]]
for k, o in (('SetPenDown', 'PenDown'), ('SetVisible', 'Visible')): SPEC[k] = [setp(o)]
for svc in ('Some', 'None'):
    SPEC['CallRpc/' + svc] = [[(('sys', 'perform_request', ('Rpc', h, F('service'), F('rpc'), ('zip', F('args[].0'), F('args')))),) for h in (('None',), F('host.Some') if svc == 'Some' else ('?',))]]
SPEC['ListInsertRandom'] = [[(('mut', 'insert', ls('list'), ('prep_rand_index', ('Add', ('c', '1'), ('len', ls('list')))), F('value')),)]]
SPEC['ListAssignRandom'] = [[(('mut', 'index_mut', ls('list'), ('prep_rand_index', ('len', ls('list')))),)]]
SPEC['Timer'] = [one(('Div', ('saturating_sub', ('call', 'to_arbitrary_ms', ('local',)), ('.', ('.', ('self',), 'global_context'), 'timer_start')), ('c', '1000.0')))]
SEQ = {'Say/Some', 'Think/Some'}

# words that make a difference between blocks; conversions, borrows and the like do not
MATH = set("Add Sub Mul Div Rem powf powi log ln log2 log10 atan2 atan asin acos sin cos tan sinh cosh tanh to_degrees to_radians Not neg abs sqrt cbrt exp floor ceil round trunc fract min max signum recip hypot".split())
TIME = set("year month day weekday number_from_sunday number_from_monday number_days_from_sunday number_days_from_monday hour minute second millisecond microsecond nanosecond ordinal iso_week unix_timestamp unix_timestamp_nanos".split())
TEXT = set("graphemes chars bytes lines split split_whitespace unicode_words from_u32 rev last first nth sort from_str".split())
COMMUTES = {'Add', 'Mul', 'eq', 'ne', 'Eq', 'Ne', 'identical'}


class Words:
    def __init__(self, p):
        names = set()
        for e in ('Property', 'Feature', 'Command', 'Request', 'PrintStyle', 'Type', 'SimpleType'):
            for a in p.adts:
                if a.rsplit('::', 1)[-1] == e and p.adts[a]['kind'] == 'enum' if isinstance(p.adts[a], dict) else False: names |= set(p.variants(a))
        self.names = names | MATH | TEXT | TIME | set(ATOMS) | {'Less', 'Equal', 'Greater'}

    def of(self, t, out=None):
        """Primitives a term applies, and the inputs each operand of an uncommutative one depends on."""
        out = set() if out is None else out
        if not isinstance(t, tuple) or not t: return out
        h = t[0]
        if h == 'mut': out.add(('mut', t[1], tuple(frozenset(leaves(x)) for x in t[2:])))
        elif h in ('in', 'c'):
            if h == 'in': out.add(t)
            elif len(t) == 2 and t[1] not in ('0', '1', '0.0', '1.0', '', 'True', 'False'): out.add(t)
            return out
        elif isinstance(h, str) and h in self.names:
            out.add(h)
            if h not in COMMUTES and len(t) > 2:
                for i, x in enumerate(t[1:]): out.add((h, i, frozenset(leaves(x))))
        for x in t[1:] if isinstance(h, str) else t: self.of(x, out)
        return out


def leaves(t):
    if not isinstance(t, tuple) or not t: return set()
    if t[0] == 'in' and len(t) == 2: return {t[1]}
    out = set()
    for x in t: out |= leaves(x)
    return out


def bare(o):
    """An outcome without the conditions it depends on, nor reads of the clock."""
    res = []
    for e in o:
        if e[0] in ('took', 'some', 'none', 'if') or e[:2] == ('sys', 'time'): continue
        res.append(noev(e))
    return tuple(res)


def noev(t):
    if not isinstance(t, tuple) or not t: return t
    if t[0] == 'each' and len(t) == 3: return ('each', noev(t[1]))
    return tuple(noev(x) for x in t)


def relist(outs):
    """Outcomes of a loop that pushes every item of a view into a new list: that view as a list."""
    views, res = set(), []
    for o in outs:
        top = [e for e in o if e[0] == 'push']
        if len(top) != 1: return outs
        t, ev, ws = top[0][1], list(o), 0
        while t[0] == 'each' and len(t) in (2, 3):
            ev += list(t[2]) if len(t) == 3 else []
            t, ws = t[1], ws + 1
        ms = [e for e in ev if e[0] == 'mut']
        if t[0] not in ('new', 'with_capacity', 'default', 'vec') or any(e[1] not in ('push', 'push_back') or e[2][:1] != t[:1] for e in ms): return outs
        for i, e in enumerate(ms):
            x = e[3]
            if x[0] != 'elem' or len(x) != 3 or x[2] != i: return outs
            views.add((x[1], ws))
    if len(views) != 1: return outs
    x, ws = views.pop()
    return [(('push', wrap(('each',) * (1 if ws else 0), x)),)]


def alike(a, b):
    """Equal, with ('?',) standing for anything."""
    if a == ('?',) or b == ('?',): return True
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b


def same(found, want):
    return all(any(alike(o, w) for w in want) for o in found) and any(any(alike(o, w) for w in want) for o in found)


# ------------------------------------------------------------------ results that depend on comparisons
def conds(o):
    """(condition, holds) pairs of an outcome, those inside elementwise operations included."""
    out = []
    def walk(e):
        if isinstance(e, tuple) and e:
            if e[0] == 'if':
                w = e[2][1] if isinstance(e[2], tuple) and e[2][0] == 'is' else e[2]
                out.append((e[1], {'0': False, '1': True}.get(w, w) if isinstance(w, str) else w))
            elif e[0] in ('some', 'none') and len(e) == 2: out.append((e[1], e[0]))
            elif e[0] == 'each' and len(e) == 3:
                for x in e[2]: walk(x)
            elif e[0] == 'push':
                walk(e[1])
    for e in o: walk(e)
    return out


ORDS = ('Less', 'Equal', 'Greater')


def ordval(t, order):
    """Value of a term when every comparison `order(x, y)` is known; None: unknown."""
    if not isinstance(t, tuple) or not t: return None
    h = t[0]
    if h in ORDS + ('None',) and len(t) == 1: return h
    if h == 'c': return {'True': True, 'False': False, '1': True, '0': False}.get(str(t[1]))
    if h == 'cmp' and len(t) == 3: return order(t[1], t[2])
    if h in ('eq', 'ne', 'Eq', 'Ne') and len(t) == 3:
        a, b = ordval(t[1], order), ordval(t[2], order)
        if a is None or b is None: return None
        return (a == b) == (h in ('eq', 'Eq'))
    if h == 'Not':
        a = ordval(t[1], order)
        return None if a is None else not a
    if h == 'reverse' and len(t) == 2:
        a = ordval(t[1], order)
        return {'Less': 'Greater', 'Greater': 'Less'}.get(a, a)
    if h == 'variant' and len(t) == 2: return ordval(t[1], order)
    if h in ('is_lt', 'is_le', 'is_gt', 'is_ge', 'is_eq', 'is_ne'):
        a = ordval(t[1], order)
        return None if a is None else a in {'is_lt': ('Less',), 'is_le': ('Less', 'Equal'), 'is_gt': ('Greater',), 'is_ge': ('Greater', 'Equal'), 'is_eq': ('Equal',), 'is_ne': ('Less', 'Greater')}[h]
    return None


def holds(cs, order):
    """Whether the conditions hold; None: cannot tell."""
    unknown = False
    for t, want in cs:
        if want in ('some', 'none'): continue
        v = ordval(t, order)
        if v is None:
            if 'cmp' in repr(t): unknown = True
            continue
        if v in ORDS:
            if want in ORDS:
                if v != want: return False
            elif isinstance(want, tuple) and want[0] == 'not':
                if v in want[1]: return False
            else: unknown = True
            continue
        if bool(want) != bool(v): return False
    return None if unknown else True


def relation(outs, truth):
    """The block is true for exactly the orderings in `truth` of its first input against its second."""
    for o in ORDS:
        def order(x, y):
            a, b = leaves(x), leaves(y)
            if a == {'left'} and b == {'right'}: return o
            if a == {'right'} and b == {'left'}: return {'Less': 'Greater', 'Greater': 'Less'}.get(o, o)
            return None
        vals = set()
        for out in outs:
            cs = [x for x in conds(out)]
            h = holds(cs, order)
            if h is None: return None
            if not h or any(w == 'none' and t[:1] == ('cmp',) for t, w in cs): continue
            ps = [e[1] for e in bare(out) if e[0] == 'push']
            if len(ps) != 1: return None
            t = ps[0]
            while t[0] == 'each': t = t[1]
            v = ordval(t, order)
            if v is None: return None
            vals.add(v)
        if vals != {o in truth}: return f'compares {o.lower()}: yields {sorted(map(str, vals))}'
    # values that do not compare are unequal, and in no order
    for out in outs:
        if not any(w == 'none' and t[:1] == ('cmp',) for t, w in conds(out)): continue
        ps = [e[1] for e in bare(out) if e[0] == 'push']
        if len(ps) != 1: continue
        t = ps[0]
        while t[0] == 'each': t = t[1]
        v = ordval(t, lambda x, y: None)
        if v is not None and v != ('Less' in truth and 'Greater' in truth): return f'does not compare: yields {v}'
    return True


def base_of(t):
    while isinstance(t, tuple) and t and t[0] in ('each', 'as_number', 'as_text', 'as_list', 'as_bool', 'copy', 'new', 'default'): t = t[1] if len(t) > 1 else None
    return t


def nthof(t):
    """(n) when the term is the n-th given value."""
    t = base_of(t)
    if isinstance(t, tuple) and len(t) == 3 and t[0] in ('elem', 'nth', 'index'):
        n = t[2]
        if isinstance(n, tuple) and n[:1] == ('c',): n = int(n[1]) if str(n[1]).isdigit() else None
        return n if isinstance(n, int) else None
    return None


def extreme(outs, pick):
    """The pushed element is one that no other element beats."""
    import itertools
    for vals in itertools.product(range(3), repeat=MOST):
        def order(x, y):
            a, b = nthof(x), nthof(y)
            if a is None or b is None: return None
            return 'Less' if vals[a] < vals[b] else 'Greater' if vals[a] > vals[b] else 'Equal'
        for out in outs:
            h = holds(conds(out), order)
            if h is None: return None
            if not h: continue
            ps = [e[1] for e in bare(out) if e[0] == 'push']
            if len(ps) != 1: return None
            k = nthof(ps[0])
            if k is None: return None
            n = 1 + max((e[2] for e in out if e[0] == 'took'), default=0)
            if vals[k] != pick(vals[:n]): return f'of the values {vals[:n]} it yields {vals[k]}'
    return True


def fold(outs, op, empty):
    """Folds `op` over all given values in order; `empty` for none."""
    for out in outs:
        ps = [e[1] for e in bare(out) if e[0] == 'push']
        if len(ps) != 1: return None
        t = ps[0]
        while t[0] in ('each', 'as_number'): t = t[1]
        if t[0] == 'c':
            if t[1] not in (empty, empty.split('.')[0]): return f'is {t[1]} for no values'
            continue
        got = []
        def walk(x):
            while x[0] in ('each', 'as_number'): x = x[1]
            if x[0] == op and len(x) == 3: walk(x[1]); walk(x[2])
            elif x == ('c', empty): pass
            else: got.append(nthof(x) if nthof(x) is not None else x)
        walk(t)
        if any(not isinstance(g, int) for g in got): return None
        n = sum(1 for e in out if e[0] == 'took')
        if sorted(got) != list(range(max(n, 1))): return f'combines the values number {got} of {n}'
    return True


def inorder(outs, ms, sep=None):
    """Appends all given values in order, `sep` between them."""
    for out in outs:
        n = sum(1 for e in out if e[0] == 'took')
        got, seps = [], 0
        for e in out:
            if e[0] == 'mut':
                if e[1] not in ms: return None
                if len(e) == 4 and e[3][:1] == ('c',) and sep is not None:
                    if e[3][1] not in sep: return f'separates by {e[3][1]}'
                    seps += 1
                    continue
                got.append(nthof(e[-1]))
        if any(g is None for g in got): return None
        ps = [e[1] for e in bare(out) if e[0] == 'push']
        first = nthof(ps[0]) if len(ps) == 1 else None
        if first is not None: got = [first] + got
        if got != list(range(n)): return f'joins the values number {got} of {n}'
        if sep is not None and n > 1 and not seps: return 'puts nothing between the values'
    return True


def modulus(outs):
    l, r = n('left'), n('right')
    rems = (('Rem', l, r), ('Rem', l, ('neg', r)), ('Rem', l, ('abs', r)))
    for out in outs:
        ps = [e[1] for e in bare(out) if e[0] == 'push']
        if len(ps) != 1: return None
        t = ps[0]
        while t[0] == 'each': t = t[1]
        cs = conds(out)
        signs = [w for c, w in cs if 'is_sign' in repr(c) or 'signum' in repr(c)]
        if t in rems or t[0] == 'Rem':
            if t != rems[0] and t not in rems: return f'computes {show(t)}'
            continue
        if t[0] == 'Add' and len(t) == 3 and r in t[1:]:
            x = t[1] if t[2] == r else t[2]
            if x not in rems: return None
            if any(c == ('Eq',) + tuple(sorted((c[1], c[2]), key=repr)) and bool(w) for c, w in cs if c[0] in ('Eq', 'eq') and 'is_sign' in repr(c)): return 'adds the divisor where the signs already agree'
            if any(c[0] in ('Ne', 'ne') and not w for c, w in cs if 'is_sign' in repr(c)): return 'adds the divisor where the signs already agree'
            zero = [w for c, w in cs if c[:1] == ('is_zero',) and c[1] in rems or c[:1] in (('eq',), ('Eq',)) and any(y in rems for y in c[1:]) and any(y[:1] == ('c',) for y in c[1:])]
            non = [w for c, w in cs if c[:1] in (('ne',), ('Ne',)) and any(y in rems for y in c[1:]) and any(y[:1] == ('c',) for y in c[1:])]
            if signs and not any(not w for w in zero) and not any(non): return 'adds the divisor even when the remainder is zero'
            continue
        return None
    return True


def random(outs):
    seen = False
    for out in outs:
        cs = conds(out)
        ps = [e[1] for e in bare(out) if e[0] == 'push']
        if len(ps) != 1: return None
        t = ps[0]
        while t[0] == 'each': t = t[1]
        if t[0] not in ('system.rand', 'rand') or len(t) != 2: return None
        rg = t[1]
        if rg[0] not in ('new', 'RangeInclusive', 'Range') or len(rg) < 3: return None
        lo, hi = rg[1:3]
        if leaves(lo) | leaves(hi) != {'a', 'b'}: return f'draws from {show(rg)}'
        def core(x):
            while isinstance(x, tuple) and x and x[0] in ('round', 'floor', 'ceil', 'trunc', 'as_number'): x = x[1]
            return x
        ok = rev = False
        for c, w in cs:
            if c[0] in ('Lt', 'Le') and len(c) == 3:
                a, b = core(c[1]), core(c[2])
                if (a, b) == (core(lo), core(hi)) and w: ok = True
                if (a, b) == (core(hi), core(lo)) and not w: ok = True
                if (a, b) == (core(hi), core(lo)) and w or (a, b) == (core(lo), core(hi)) and not w: rev = True
        if rev and not ok: return 'draws from a range whose ends are in the wrong order'
        if not ok: return None
        seen = True
    return True if seen else None


def crange(outs):
    up = down = False
    st0, en = n('start'), n('stop')
    for out in outs:
        inner = [e for e in out if e[0] == 'push']
        if len(inner) != 1 or inner[0][1][0] != 'each': return None
        ev = inner[0][1][2] if len(inner[0][1]) > 2 else ()
        xs = [e[-1] for e in ev if e[0] == 'mut']
        if any(e[1] != 'push_back' for e in ev if e[0] == 'mut'): return None
        sign = None
        for i, x in enumerate(xs):
            if i == 0:
                if x != st0: return f'starts with {show(x)}'
                continue
            s = 'Add' if x == ('Add',) + tuple(sorted((xs[i - 1], ('c', '1.0')), key=repr)) else 'Sub' if x == ('Sub', xs[i - 1], ('c', '1.0')) else None
            if s is None: return None
            if sign not in (None, s): return 'steps both up and down'
            sign = s
        # known orderings: x <= y
        le, gt = set(), set()
        for c, w in conds(out):
            if c[0] in ('Le', 'Lt') and len(c) == 3:
                if w: le.add((c[1], c[2]))
                else: le.add((c[2], c[1]))
        for i, x in enumerate(xs):
            if (x, en) in le: up = up or sign == 'Add'; ok = sign in (None, 'Add')
            elif (en, x) in le: down = down or sign == 'Sub'; ok = sign in (None, 'Sub')
            else: return None
            if not ok: return 'steps away from its end'
    return True if up and down else 'does not count both upwards and downwards'


def find_(outs, present, absent):
    for out in outs:
        ps = [e[1] for e in bare(out) if e[0] == 'push']
        cs = [(c, w) for c, w in conds(out) if c[:1] == ('find',)]
        if len(ps) != 1 or not cs: return None
        if cs[0][0] != ('find', ls('list'), F('value')): return f'searches {show(cs[0][0])}'
        want = present if cs[0][1] == 'some' else absent
        if ps[0] not in want: return f'yields {show(ps[0])} for a value that is {"in" if cs[0][1] == "some" else "not in"} the list'
    return True


def atindex(outs, ms, lens, value=None, backward=False):
    """The same operation at each of the chosen positions."""
    for out in outs:
        for e in out:
            if e[0] != 'mut': continue
            if e[1] not in ms: return None
            if e[2] != ls('list'): return f'modifies {show(e[2])}'
            i = e[3]
            if i[0] == 'elem' : i = i[1]
            rev = i[0] == 'rev'
            if rev: i = i[1]
            if i[0] != 'prep_index_set': return None
            if i[1] != F('index') or i[2] not in lens: return f'acts on {show(i)}'
            if backward and not rev: return 'removes or inserts from the front, which shifts the remaining positions'
            if value and e[-1] != F(value): return f'stores {show(e[-1])}'
    return True


def message(outs, wait):
    for out in outs:
        e = [e for e in out if e[0] == 'sys' and e[1] == 'send_message']
        if not e: return None
        m, vals, tgt, w = e[0][2:6]
        if m != F('msg_type'): return f'sends {show(m)}'
        if w != ('c', wait): return 'asks for an answer' if not wait else 'does not ask for an answer'
        z = vals
        while isinstance(z, tuple) and z and z[0] in ('map', 'collect') : z = z[1]
        if z[0] == 'zip' and z[1:] != (F('values[].0'), F('values')): return f'sends {show(z)}'
    return True


def last_args(outs, cmdname, want):
    for out in outs:
        for e in out:
            if e[0] != 'sys' or e[1] != 'perform_command': continue
            x = e[2]
            if x[0] != cmdname: return f'performs {x[0]}'
            if x[-len(want):] != want: return f'performs {show(x)}'
    return True


MORE = {
    'Add': lambda o: fold(o, 'Add', '0.0'), 'Mul': lambda o: fold(o, 'Mul', '1.0'), 'Min': lambda o: extreme(o, min), 'Max': lambda o: extreme(o, max),
    'StrCat': lambda o: inorder(o, ('write', 'push_str', 'write_fmt', 'write_str')), 'ListCat': lambda o: inorder(o, ('extend', 'push_back', 'append')), 'ListLines': lambda o: inorder(o, ('push', 'push_str', 'write'), ('10', '\n')),
    'Mod': modulus, 'Random': random, 'Range': crange,
    'ListFind': lambda o: find_(o, [('Add', ('c', '1'), ('find', ls('list'), F('value')))], [('c', '0')]),
    'ListContains': lambda o: find_(o, [('c', True), ('c', 'True')], [('c', False), ('c', 'False')]),
    'ListInsert': lambda o: atindex(o, ('insert',), [('Add', ('c', '1'), ('len', ls('list')))], 'value', True),
    'ListRemove': lambda o: atindex(o, ('remove',), [('len', ls('list'))], None, True),
    'ListAssign': lambda o: atindex(o, ('index_mut', 'get_mut', 'set'), [('len', ls('list'))]),
    'SendNetworkMessage': lambda o: message(o, False), 'NetworkMessageReply': lambda o: message(o, True),
    'PlayNotes': lambda o: last_args(o, 'PlayNotes', (n('beats'), F('blocking'))), 'Rest': lambda o: last_args(o, 'PlayNotes', (n('beats'), ('c', True))), 'PlaySound': lambda o: last_args(o, 'PlaySound', (F('blocking'),)),
}
for k, tr in TRUTH.items(): MORE[k] = lambda o, tr=tr: relation(o, tr)
# what the unexplained form of these blocks must at least contain
ROUGH = {'Add': {'Add'}, 'Mul': {'Mul'}, 'Min': {'Less'}, 'Max': {'Greater'}, 'Mod': {'Rem'}}
# instruction operands that carry the meaning: kind -> choices -> (instruction, operands)
TOKENS = {
    ('Stop', 'ThisScript'): ('Abort', 'Current'), ('Stop', 'All'): ('Abort', 'All'), ('Stop', 'AllButThisScript'): ('Abort', 'Others'), ('Stop', 'OtherScriptsInSprite'): ('Abort', 'MyOthers'), ('Stop', 'ThisBlock'): ('Return',),
    ('ShowVar', None): ('Watcher', True), ('HideVar', None): ('Watcher', False),
}


def show(t):
    if not isinstance(t, tuple): return str(t)
    if len(t) == 2 and t[0] == 'in': return '<' + str(t[1]) + '>'
    if len(t) == 2 and t[0] == 'c': return str(t[1])
    if t and isinstance(t[0], str): return t[0] + ('(' + ', '.join(show(x) for x in t[1:]) + ')' if len(t) > 1 else '')
    return '(' + ' '.join(show(x) for x in t) + ')'


def check(c):
    p = c.p
    b = Builder(p)
    eff = Effects(p, c)
    fills = p02.holefills(c, b, eff)
    mean = Meaning(p)
    words = Words(p)
    c.rule('for every block kind, the effect of the generated instructions - followed from the compiler through the interpreter into its helpers, as a term over the inputs of the block - is the operation of that name: the same primitive, applied to the inputs in their roles, on scalars and (through the elementwise helpers) on list elements')
    decided, kinds = set(), set()
    for ty, K, v, f, t, fl in p02.flows(c, b, eff, fills, shapes=True):
        if K == AVAL: continue
        kinds.add(v)
        choices = [v] + [v + '/' + x.split('=')[-1] for x in t.shape.split(',') if '=' in x]
        key = next((k for k in reversed(choices) if k in SPEC), None)
        more = MORE.get(v)
        if key is None and more is None: continue
        L = p08.Labels(fl, eff, b, ty, v)
        cn = lambda x: canon(b, ty, v, x)[0]
        seq = [(ins, [tuple(e for e in o) for o in outs]) for n_, ins, outs in compose(mean, fl, L, t, cn)]
        loc = eff.loc(seq[-1][0]) if seq and hasattr(eff, 'loc') else f.loc()
        real = [(ins, outs) for ins, outs in seq if any(bare(o) for o in outs)]
        if ty != EXPR: real = [(ins, outs) for ins, outs in real if any(e[0] != 'push' for o in outs for e in bare(o))] or real
        who = f'{p02.short(K)}::{v}' + (f' ({t.shape})' if t.shape else '')
        vkey = f'{p02.short(K)}::{key or v}'
        if not real: c.violation(vkey, f'{who} does nothing', loc, [f.path]); continue
        if key in SEQ:
            alts = SPEC[key]
            got = [[bare(o) for o in outs] for ins, outs in real]
            good = any(len(got) == len(a) and all(same(g, w) for g, w in zip(got, a)) for a in alts)
            if not good: c.violation(vkey, f'{who}: ' + '; then '.join(show(o) for g in got for o in g[:1])[:300], loc, [f.path])
            c.count('terms compared', len(got)); decided.add(key)
            continue
        ins, outs = real[-1]
        c.count('terms compared', len(outs))
        decided.add(key or v)
        if more is not None and key is None:
            r = more(outs)
            if r is True: c.sample(f'{who} -> {ins[2]}: ' + show(bare(outs[-1]))[:150]); continue
            if r is None:
                c.count('judged by primitives only'); c.notes.append('by primitives: ' + who)
                got = set()
                for o in outs: words.of(tuple(e for e in o if e[0] != 'took'), got)
                need = ROUGH.get(v)
                if need is None or need <= got and not (got & (MATH | {'Less', 'Greater'}) - need - {'neg', 'abs', 'Equal'}): continue
                r = 'applies ' + ', '.join(sorted(x for x in got if isinstance(x, str)))
            c.violation(vkey, f'{who}: {ins[2]} {r}', loc, [f.path])
            continue
        got = sorted({bare(o) for o in relist(outs) if bare(o)} or {()}, key=repr)
        if any(same(got, a) for a in SPEC[key]):
            c.sample(f'{who} -> {ins[2]}: ' + show(got[0])[:150]); continue
        # another spelling: the same primitives, over the same inputs in the same roles
        gw = words.of(tuple(got))
        if any(gw == words.of(tuple(a)) for a in SPEC[key]): c.count('judged by primitives only'); c.notes.append('by primitives: ' + who); continue
        c.violation(vkey, f'{who}: {ins[2]} does ' + ' or '.join(show(o) for o in got[:3])[:400], loc, [f.path])
    # choices that are operands of the instruction
    for ty, K in ((EXPR, AST + 'ExprKind'), (STMT, AST + 'StmtKind')):
        f, _ = b.entry[ty]
        for v in p.variants(K):
            want = {k: x for k, x in TOKENS.items() if k[0] == v}
            if v != 'SendLocalMessage' and not want: continue
            for t in unique(templates(b, ty, v)[2], True):
                if not t.ok: continue
                ch = {x.split('=')[-1] for x in t.shape.split(',') if '=' in x}
                toks = [flat(e[1]) for e in t.events if e[0] == 'ins' and strip(e[1])[0] == 'agg']
                for k, x in want.items():
                    if k[1] is not None and k[1] not in ch: continue
                    c.count('terms compared'); decided.add('/'.join(y for y in k if y))
                    if not any(y[:len(x)] == x for y in toks): c.violation(f'{p02.short(K)}::{v}' + (f'/{k[1]}' if k[1] else ''), f'{v} ({t.shape}) compiles to {toks}', f.loc(), [f.path])
                if v == 'SendLocalMessage':
                    has = [e[0] for e in t.events if e[0] == 'expr' and 'target' in canon(b, ty, v, e[1])[0]]
                    for y in toks:
                        if y[0] != v: continue
                        c.count('terms compared'); decided.add(v)
                        if y[1:] != ('$wait', bool(has)): c.violation(f'{p02.short(K)}::{v}', f'{v}: compiles to {y} {"with" if has else "without"} a list of targets', f.loc(), [f.path])
    helpers(c, p, mean)
    c.count('block kinds and choices decided', len(decided))
    c.floor('block kinds and choices decided', 130)
    c.floor('terms compared', 250)
    c.notes.append('kinds without an operation of their own (control flow, variables, calls; other properties): ' + ', '.join(sorted(k for k in kinds if not any(d.split('/')[0] == k for d in decided))))


def flat(x):
    x = strip(x)
    if x[0] == 'agg': return (x[2],) + tuple(z for y in x[3] for z in (lambda w: w if len(w) == 1 else (w,))(flat(y)))
    if x[0] == 'c': return (x[2] if len(x) > 2 else x[1],)
    if x[0] == 'ast': return ('$' + x[1],)
    return (x[0],)


class Recursion(FnRule):
    """A helper that calls itself; its own calls and those of functions it is given are recorded."""
    def __init__(self, p, fn):
        FnRule.__init__(self, p, atoms=('identity', 'as_matrix'))
        self.fn, self.numbered = fn, True

    number, enough = OpRule.number, OpRule.enough

    def inline(self, sim, f): return f.id != self.fn.id and FnRule.inline(self, sim, f)

    def on_call(self, sim, st, cx, callee, args, site):
        kind = 'rec' if callee is not None and callee.local == self.fn.id else 'op' if callee is None or callee.method in ('call', 'call_mut', 'call_once') else None
        if callee is not None and callee.method in ('eq', 'ne') and len(args) == 2:
            def plain(x):
                x = strip(x)
                while x[0] == 'ref': x = strip(sim.read(st, x[1]))
                return x
            a, b = map(plain, args)
            if a[0] == b[0] == 'agg' and not a[3] and not b[3] and a[1] == b[1]:
                return [(st, TRUE if (a[2] == b[2]) == (callee.method == 'eq') else FALSE)]
        if callee is not None and callee.method in ('get', 'contains_key', 'entry') and 'BTreeMap' in callee.rpath or callee is not None and callee.method == 'get' and 'HashMap' in callee.rpath:
            def seen(x):
                x = strip(x)
                if x[0] == 'ref': x = strip(sim.read(st, x[1]))
                return self.norm(sim, st, x)
            self.note(st, ('look', self.norm(sim, st, args[0]), seen(args[1])))
        if kind:
            v = self.T(kind, *[self.norm(sim, st, x) for x in args])
            self.note(st, self.table[v[1]])
            return [(st, ok(v)), (st.copy(), err(('err', kind)))]
        return FnRule.on_call(self, sim, st, cx, callee, args, site)


def params(t):
    if not isinstance(t, tuple) or not t: return set()
    if len(t) == 1 and isinstance(t[0], str) and t[0].startswith('param'): return {int(t[0][5:])}
    out = set()
    for x in t: out |= params(x)
    return out


def where(t):
    if not isinstance(t, tuple) or not t: return None
    if t[0] == 'elem' and len(t) == 3: return t[2]
    return next((w for w in map(where, t) if w is not None), None)


def helpers(c, p, mean):
    """The elementwise helpers hand on the operation and the operands in their roles, element by element."""
    c.rule('each elementwise helper passes on the same operation, the first operand and its elements first, the second and its elements second, pairs elements of equal position, and stores only results')
    used = sorted(getattr(mean, 'uses_elementwise', ()))
    for fid, vals, opi in used:
        f = p.by_id[fid]
        rule = Recursion(p, f)
        sim = Sim(p, rule)
        bad = set()
        for st, r in sim.run(f, [('arg', f'param{i}') for i in range(f.nargs)]):
            c.count('elementwise paths')
            for e in st.rs:
                if e[0] == 'rec' and len(e) == f.nargs + 1:
                    c.count('elementwise calls')
                    if params(e[1 + opi]) != {opi}: bad.add('continues with another operation')
                    for i in vals:
                        if params(e[1 + i]) != {i}: bad.add(f'continues with operand {sorted(params(e[1 + i]) & set(vals))} in the place of operand {i}')
                    if any(has(e[1 + i], w) for i in vals for w in ('skip', 'chain', 'rev', 'step_by', 'take', 'cycle', 'windows', 'chunks')): bad.add('does not go through the elements from first to last')
                    ks = {where(e[1 + i]) for i in vals} - {None}
                    if len(ks) > 1: bad.add('pairs elements of different positions')
                elif e[0] == 'op':
                    c.count('elementwise calls')
                    xs = [x for x in e[1:] if params(x) & set(vals)]
                    flatxs = [y for x in xs for y in (x[1:] if x[0] in ('()', 'tuple') else (x,)) if params(y) & set(vals)]
                    if [params(x) for x in flatxs] != [{i} for i in vals]: bad.add('applies the operation to other operands than its own in order')
                elif e[0] == 'mut' and e[1] in ('push_back', 'push_front', 'push', 'extend', 'insert'):
                    if e[1] == 'push_front': bad.add('stores the results in the opposite order')
                    if e[1] in ('push_back', 'push') and not has(e[-1], 'rec') and not has(e[-1], 'op'): bad.add('stores something else than a result')
                    if e[1] == 'insert' and len(e) == 5 and has(e[3], 'identity'):
                        c.count('elementwise results remembered')
                        need = set(vals) | {i for i in range(f.nargs) if f.locals[i + 1] == 'bool'}
                        if not need <= params(e[3]): bad.add(f'remembers a result without telling operands apart ({sorted(need - params(e[3]))} not in the key)')
                elif e[0] == 'look' and has(e[2], 'identity'):
                    c.count('elementwise results looked up')
                    if not set(vals) <= params(e[2]): bad.add(f'looks up a result without telling operands apart ({sorted(set(vals) - params(e[2]))} not in the key)')
        for m in sorted(bad): c.violation(f'elementwise:{f.path.rsplit("::", 1)[-1]}', f'{f.path} {m}', f.loc(), [f.path])
    c.rule('an operation that draws from the system (random choices) is never answered from the results remembered for an equal list')
    for ch in sorted(getattr(mean, 'chance', ()), key=repr):
        f, by, modes = p.by_id[ch[0]], p.by_id[ch[1]], dict(ch[2:])
        rule = Recursion(p, f)
        kept = None
        for st, r in Sim(p, rule).run(f, [modes.get(i, ('arg', f'param{i}')) for i in range(f.nargs)]):
            r0 = strip(r)
            if r0[0] == 'agg' and r0[2] == 'Err': continue
            c.count('random elementwise paths')
            live = []
            for e in st.rs:
                if e[0] == 'mut' and e[1] == 'insert' and len(e) == 5 and has(e[3], 'identity'): live.append(e[2:4])
                elif e[0] == 'mut' and e[1] == 'remove' and e[2:4] in live: live.remove(e[2:4])
                elif e[0] == 'mut' and e[1] == 'clear': live = []
            if live: kept = True
        if kept: c.violation(f'random:{by.path.rsplit("::", 1)[-1]}', f'{by.path}: a random operation over a list goes through {f.path} remembering results, so a list that occurs twice gets the same draws twice', by.loc(), [by.path, f.path])
    c.floor('random elementwise paths', 1)
    c.floor('elementwise results remembered', 3)
    c.count('elementwise helpers', len(used))
    c.floor('elementwise helpers', 2)
    c.floor('elementwise calls', 8)


def has(t, w):
    if not isinstance(t, tuple) or not t: return False
    return t[0] == w or any(has(x, w) for x in t)
