"""P20: the core reaches the outside world only through the host's system object.

Who-may-call over the resolved call graph, closed by default: a source file is part of the core unless it is one of the
named host layers; a function of the core may use items of the named, effect-free crates only, in both the full and the
embedded (no default features) configuration.  `std` as such is not among them, so no clock, environment, file, network,
thread, random hasher or process-wide state can be reached.  Within the allowed crates the operations that observe
something other than their arguments (addresses, the local clock, pointer order) are forbidden individually.
"""
import re
from mir import strip_ty

HOST = {'src/std_system.rs': 'the supplied system', 'src/std_util.rs': 'host-side helpers (feature std)',
        'src/cli.rs': 'command line host', 'src/main.rs': 'command line host'}
PURE = {
    'core', 'alloc', 'gc_arena', 'netsblox_ast', 'serde', 'serde_core', 'serde_json', 'checked_float', 'compact_str', 'our_string',
    'num_traits', 'num_integer', 'num_derive', 'libm', 'ryu', 'itoa', 'base64', 'bin_pool', 'replace_with', 'typed_arena', 'xmlparser', 'unicase',
    'unicode_segmentation', 'monostate', 'time', 'educe', 'netsblox_vm',
}
#: members of the allowed crates which observe the environment
DENY = [
    (r'^time::.*::(now\w*|current_local_offset|local_offset_at)$', 'reads the clock or the local time zone'),
    (r'(^|::)(addr|expose_addr|expose_provenance|to_bits|addr_eq_ord)$ptr', ''),
    (r'core::fmt::Pointer', 'shows an address'),
    (r'core::ptr::(const_ptr|mut_ptr)::.*::(addr|expose_provenance|offset_from|byte_offset_from)$', 'observes an address'),
    (r'core::ptr::hash$|core::ptr::.*Hash', 'hashes an address'),
]
#: containers keyed by addresses may be asked about a key, never walked in key order
KEYED = re.compile(r"BTree(Map|Set)")
KEYED_OK = {'new', 'default', 'insert', 'get', 'get_mut', 'contains', 'contains_key', 'remove', 'entry', 'len', 'is_empty', 'clear', 'take', 'replace', 'get_or_insert_with', 'retain', 'extend', 'from_iter', 'drop', 'clone', 'index', 'or_insert', 'or_insert_with', 'or_default', 'get_key_value', 'remove_entry'}
ADDRESS = re.compile(r"\*const |\*mut |Identity<|Gc<")
CELLS = re.compile(r'Atomic|Mutex|RwLock|OnceCell|OnceLock|LazyCell|LazyLock|RefCell|Cell<|UnsafeCell')


def refs(x, out):
    """All function constants in a MIR fragment, called or passed on."""
    if isinstance(x, dict):
        if 'fn' in x and isinstance(x['fn'], dict): out.append(x['fn'])
        for v in x.values(): refs(v, out)
    elif isinstance(x, list):
        for v in x: refs(v, out)


def first_arg(args):
    return next((a for a in args if not a.startswith("'")), '')


def keyed_by_address(cal):
    if not KEYED.search(cal.rpath) and not any(KEYED.search(a) for a in cal.args[:1]): return None
    a = cal.args
    t = next((x for x in a if KEYED.search(x)), None)
    if t is not None:
        m = re.search(r'BTree(?:Map|Set)<(.*)', t)
        key = m.group(1) if m else ''
        key = key[:_keylen(key)]
    else: key = first_arg(a)
    return key if ADDRESS.search(key) else None


POINTER = re.compile(r"\*const |\*mut |(^|[^\w])Identity<")
ORDERING = {'cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge', 'max', 'min', 'clamp', 'sort', 'sort_unstable', 'is_sorted', 'binary_search', 'sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key',
            'is_sorted_by_key', 'min_by_key', 'max_by_key', 'binary_search_by_key', 'select_nth_unstable', 'select_nth_unstable_by_key'}


def address_use(cal):
    """Orders, hashes or shows something made of addresses (rather than comparing them for equality)."""
    own = [a for a in cal.args if not a.startswith("'")]
    if cal.rpath.startswith('core::fmt::rt::Argument') and cal.method.startswith('new_'):
        if cal.method == 'new_pointer' or any(re.match(r"&*(\*const |\*mut )", a) for a in own): return 'shows an address'
    if cal.method in ORDERING:
        if 'by_key' in cal.method or 'cached' in cal.method: own = own[1:]
        elif cal.trait is not None and not cal.trait.endswith('Iterator'): own = own[:1]
        if any(POINTER.search(a) and not a.startswith(('{', 'fn')) and 'losure' not in a for a in own): return 'orders addresses'
    if (cal.trait or '').endswith('hash::Hash') and own and re.match(r"&*(\*const |\*mut )", own[0]): return 'hashes an address'
    return None


def _keylen(s):
    d = 0
    for i, ch in enumerate(s):
        if ch in '<([': d += 1
        elif ch in '>)]':
            if d == 0: return i
            d -= 1
        elif ch == ',' and d == 0: return i
    return len(s)


def scan(c, p, config):
    from mir import Callee
    nfn = ncalls = nkeyed = 0
    for f in p.fns:
        if f.file in HOST or f.file.endswith('/out/meta.rs') : continue
        if not f.file.startswith('src/'):
            c.violation(f'file:{config}', f'{f.path} comes from {f.file}, outside the sources this rule knows', f.loc()); continue
        nfn += 1
        st = f.j.get('static')
        if st and (st['mut'] or not st['frozen'] or st['tls']):
            c.violation(f'state:{f.path}', f'{f.path} is process-wide mutable state in the core ({f.locals[0]}): two executions of the same program with the same inputs can differ', f.loc())
        # an interior-mutable `const` is harmless (every use is a fresh copy); thread-locals appear through std::thread
        for b in f.blocks:
            if b.cleanup: continue
            found = []
            for s in b.stmts:
                if s[0] != '=': continue
                refs(s[2], found)
                rv = s[2]
                if rv[0] == 'cast' and ('Expose' in rv[1] or (rv[1] == 'Transmute' and ('*const' in rv[3] or '*mut' in rv[3]) and re.fullmatch(r'[ui](8|16|32|64|128|size)', rv[4]))):
                    c.violation(f'address:{f.path}', f'{f.path} turns an address into a number ({rv[3]} as {rv[4]})', f.loc(s[3]))
                if rv[0] == 'bin' and rv[1] in ('Lt', 'Le', 'Gt', 'Ge', 'Cmp') and rv[4].startswith('*') and not f.derived:
                    c.violation(f'address-order:{f.path}', f'{f.path} orders addresses', f.loc(s[3]))
            refs(b.term, found)
            sp = b.term[-1] if b.term[0] == 'call' else None
            for j in found:
                cal = Callee(j)
                ncalls += 1
                if cal.crate not in PURE:
                    c.violation(f'outside:{f.path}:{cal.rpath}', f'{f.path} in {f.file} uses {cal.rpath} of crate {cal.crate}, which is not among the effect-free crates the core may use', f.loc(sp))
                    continue
                for rx, why in DENY:
                    if why and re.search(rx, cal.rpath): c.violation(f'observes:{f.path}:{cal.rpath}', f'{f.path} uses {cal.rpath}, which {why}', f.loc(sp))
                if cal.method in ('cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge', 'max', 'min') and first_arg(cal.args).startswith(('*const', '*mut')) and not f.derived:
                    c.violation(f'address-order:{f.path}', f'{f.path} orders addresses', f.loc(sp))
                why = address_use(cal)
                if why and not f.derived: c.violation(f'address-use:{f.path}:{cal.method}', f'{f.path} {why}', f.loc(sp))
                key = keyed_by_address(cal)
                if key:
                    nkeyed += 1
                    if cal.method not in KEYED_OK:
                        c.violation(f'address-order:{f.path}:{cal.method}', f'{f.path} walks a container keyed by addresses ({key}) with {cal.method}: its order differs between runs', f.loc(sp))
    c.count(f'core functions ({config})', nfn)
    c.count(f'external and local uses resolved ({config})', ncalls)
    c.count(f'uses of address-keyed containers ({config})', nkeyed)


def check(c):
    c.rule('a function outside the host layers uses items of effect-free crates only; std is not one of them')
    c.rule('no mutable, interior-mutable or thread-local static in the core; addresses are never turned into numbers, ordered, printed or walked in order')
    p = c.p
    scan(c, p, 'all features')
    scan(c, c.nostd, 'no default features')
    # positive examples: the rule must see the host layers do what it forbids to the core
    host = [cal for f in p.fns if f.file in HOST for cal in f.callees.values() if cal.crate not in PURE]
    c.count('host-layer uses the rule would reject in the core', len(host))
    # the core does reach the host, through the trait
    n = sum(1 for f in p.fns if f.file not in HOST for cal in f.callees.values() if cal.trait == 'runtime::System')
    c.count('uses of the host system by the core', n)
    c.floor('core functions (all features)', 700)
    c.floor('core functions (no default features)', 700)
    c.floor('host-layer uses the rule would reject in the core', 100)
    c.floor('uses of the host system by the core', 9)
    c.floor('uses of address-keyed containers (all features)', 20)
    c.assume('the allowed crates behave as functions of their arguments (other than the members denied individually)')
