R = 'process.rs'
def b(o, n, *k): return ('break', 'P46', R, o, n) + k
def k(o, n, *kk): return ('keep', 'P46', R, o, n) + kk
MUTS = [
    b('(None, Some(_)) => break Some(Ordering::Less),', '(None, Some(_)) => break Some(Ordering::Greater),'),
    b('(Some(_), None) => break Some(Ordering::Greater),', '(Some(_), None) => break Some(Ordering::Equal),'),
    b('                            Some(Ordering::Equal) => (),\n                            x => break x,', '                            Some(Ordering::Equal) | None => (),\n                            x => break x,'),
    b('(Some(a), Some(b)) => match cmp_impl(a, b, cache)? {', '(Some(a), Some(b)) => match cmp_impl(b, a, cache)? {'),
    b('let (mut a, mut b) = (a.iter(), b.iter());', 'let (mut a, mut b) = (a.iter(), b.iter().rev());'),
    b('(Value::Bool(_), _) | (_, Value::Bool(_)) => None,', '(Value::Bool(a), Value::Number(b)) => (*a as u8 as f64).partial_cmp(&b.get()),\n            (Value::Bool(_), _) | (_, Value::Bool(_)) => None,'),
    b('None => UniCase::new(SimpleValue::stringify_number(*a).as_str()).cmp(&UniCase::new(b.as_str())).into(),', 'None => None,'),
    b('None => UniCase::new(a.as_str()).cmp(&UniCase::new(b.as_str())).into(),', 'None => a.cmp(b).into(),'),
    b('                Some(a) => a.cmp(b).into(),\n', '                Some(a) => b.cmp(&a).into(),\n'),
    b('(Value::Image(a), Value::Image(b)) => if Rc::ptr_eq(a, b) {', '(Value::Image(a), Value::Image(b)) => if a.content == b.content {'),
    b('(Value::Entity(a), Value::Entity(b)) => if a.as_ptr() == b.as_ptr() { Some(Ordering::Equal) } else { None },', '(Value::Entity(a), Value::Entity(b)) => if a.as_ptr() != b.as_ptr() { Some(Ordering::Equal) } else { None },'),
    b('(Value::Closure(a), Value::Closure(b)) => if a.as_ptr() == b.as_ptr() { Some(Ordering::Equal) } else { None },', '(Value::Closure(a), Value::Closure(b)) => a.as_ptr().cmp(&b.as_ptr()).into(),'),
    b('None => { cache.insert(key, None); }\n        }\n\n        let res = match (a, b) {', 'None => (),\n        }\n\n        let res = match (a, b) {'),
    b('        cmp_impl(a, b, &mut Default::default())', '        cmp_impl(b, a, &mut Default::default())'),
    b('        cmp_impl(a, b, &mut Default::default())', '        Ok(cmp_impl(a, b, &mut Default::default())?.or(Some(Ordering::Less)))'),
    b('(Value::Text(a), Value::Text(b)) => a == b,', '(Value::Text(a), Value::Text(b)) => UniCase::new(a.as_str()) == UniCase::new(b.as_str()),'),
    b('(Value::List(a), Value::List(b)) => a.as_ptr() == b.as_ptr(),', '(Value::List(a), Value::List(b)) => a.borrow().is_empty() && b.borrow().is_empty() || a.as_ptr() == b.as_ptr(),'),
    b('(Value::Number(_), _) | (_, Value::Number(_)) => false,', '(Value::Number(a), Value::Text(b)) => SimpleValue::stringify_number(*a) == *b,\n            (Value::Number(_), _) | (_, Value::Number(_)) => false,'),
    b('for (i, x) in list.iter().enumerate() {\n            if cmp(x', 'for (i, x) in list.iter().enumerate().rev() {\n            if cmp(x'),
    b('                return Ok(Some(i));', '                return Ok(Some(i + 1));'),
    b('if cmp(x, value)? == Some(Ordering::Equal) {', 'if cmp(x, value).ok().flatten() == Some(Ordering::Equal) {'),
    b('if cmp(x, value)? == Some(Ordering::Equal) {', 'if identical(x, value) {'),
    k('if cmp(x, value)? == Some(Ordering::Equal) {', 'if let Some(Ordering::Equal) = cmp(x, value)? {'),
    k('if cmp(x, value)? == Some(Ordering::Equal) {', 'if cmp(value, x)? == Some(Ordering::Equal) {'),
    k('if cmp(x, value)? == Some(Ordering::Equal) {', 'let r = cmp(x, value)?;\n            if matches!(r, Some(Ordering::Equal)) {'),
    k('if cmp(x, value)? == Some(Ordering::Equal) {', 'if check_relation(x, value, Relation::Equal)? {'),
    k('''        for (i, x) in list.iter().enumerate() {
            if cmp(x''', '''        let mut i = 0;
        while i < list.len() {
            let x = &list[i];
            i += 1;
            let i = i - 1;
            if cmp(x'''),
    k('                Some((a, b)) => a.cmp(&b).into(),', '                Some((a, b)) => Some(b.cmp(&a).reverse()),'),
    k('(Value::Closure(a), Value::Closure(b)) => if a.as_ptr() == b.as_ptr() { Some(Ordering::Equal) } else { None },', '(Value::Closure(a), Value::Closure(b)) => if a.as_ptr() != b.as_ptr() { None } else { Some(Ordering::Equal) },'),
    k('(Value::Closure(a), Value::Closure(b)) => if a.as_ptr() == b.as_ptr() { Some(Ordering::Equal) } else { None },', '(Value::Closure(a), Value::Closure(b)) => (a.as_ptr() == b.as_ptr()).then_some(Ordering::Equal),'),
    k('(Value::Closure(a), Value::Closure(b)) => if a.as_ptr() == b.as_ptr() { Some(Ordering::Equal) } else { None },', '(Value::Closure(a), Value::Closure(b)) => if Gc::ptr_eq(*a, *b) { Some(Ordering::Equal) } else { None },'),
    k('''                let (mut a, mut b) = (a.iter(), b.iter());
                loop {
                    match (a.next(), b.next()) {
                        (Some(a), Some(b)) => match cmp_impl(a, b, cache)? {
                            Some(Ordering::Equal) => (),
                            x => break x,
                        }
                        (None, Some(_)) => break Some(Ordering::Less),
                        (Some(_), None) => break Some(Ordering::Greater),
                        (None, None) => break Some(Ordering::Equal),
                    }
                }''', '''                let mut res = Some(a.len().cmp(&b.len()));
                for (x, y) in a.iter().zip(b.iter()) {
                    let r = cmp_impl(x, y, cache)?;
                    if r != Some(Ordering::Equal) { res = r; break }
                }
                res'''),
    k('''                let (a, b) = (a.borrow(), b.borrow());
                let (mut a, mut b) = (a.iter(), b.iter());
                loop {
                    match (a.next(), b.next()) {
                        (Some(a), Some(b)) => match cmp_impl(a, b, cache)? {
                            Some(Ordering::Equal) => (),
                            x => break x,
                        }
                        (None, Some(_)) => break Some(Ordering::Less),
                        (Some(_), None) => break Some(Ordering::Greater),
                        (None, None) => break Some(Ordering::Equal),
                    }
                }''', '''                let (a, b) = (a.borrow(), b.borrow());
                cmp_lists(&*a, &*b, cache)?'''),
]
MUTS[-1] = MUTS[-1][:3] + ([(MUTS[-1][3], MUTS[-1][4]), ("    pub(super) fn cmp<'gc", '''    fn cmp_lists<'gc, C: CustomTypes<S>, S: System<C>>(a: &VecDeque<Value<'gc, C, S>>, b: &VecDeque<Value<'gc, C, S>>, cache: &mut BTreeMap<(Identity<'gc, C, S>, Identity<'gc, C, S>), Option<Option<Ordering>>>) -> Result<Option<Ordering>, ErrorCause<C, S>> {
        let (mut a, mut b) = (a.iter(), b.iter());
        loop {
            return Ok(match (a.next(), b.next()) {
                (Some(a), Some(b)) => match cmp_impl(a, b, cache)? {
                    Some(Ordering::Equal) => continue,
                    x => x,
                }
                (None, Some(_)) => Some(Ordering::Less),
                (Some(_), None) => Some(Ordering::Greater),
                (None, None) => Some(Ordering::Equal),
            })
        }
    }
    pub(super) fn cmp<'gc''')], '')

MUTS += [b("""                let (mut a, mut b) = (a.iter(), b.iter());
                loop {
                    match (a.next(), b.next()) {
                        (Some(a), Some(b)) => match cmp_impl(a, b, cache)? {
                            Some(Ordering::Equal) => (),
                            x => break x,
                        }
                        (None, Some(_)) => break Some(Ordering::Less),
                        (Some(_), None) => break Some(Ordering::Greater),
                        (None, None) => break Some(Ordering::Equal),
                    }
                }""", """                let mut res = Some(a.len().cmp(&b.len()));
                if res == Some(Ordering::Equal) {
                    for (x, y) in a.iter().zip(b.iter()) {
                        let r = cmp_impl(x, y, cache)?;
                        if r != Some(Ordering::Equal) { res = r; break }
                    }
                }
                res""")]

MUTS += [k("""        for (i, x) in list.iter().enumerate() {
            if cmp(x""", """        for i in 0..list.len() {
            let x = &list[i];
            if cmp(x"""),
 b("""        for (i, x) in list.iter().enumerate() {
            if cmp(x""", """        for i in 1..list.len() {
            let x = &list[i];
            if cmp(x"""),
 b("""        for (i, x) in list.iter().enumerate() {
            if cmp(x""", """        for (i, x) in list.iter().enumerate().skip(1) {
            if cmp(x"""),
 k("""                let (mut a, mut b) = (a.iter(), b.iter());
                loop {
                    match (a.next(), b.next()) {
                        (Some(a), Some(b)) => match cmp_impl(a, b, cache)? {
                            Some(Ordering::Equal) => (),
                            x => break x,
                        }
                        (None, Some(_)) => break Some(Ordering::Less),
                        (Some(_), None) => break Some(Ordering::Greater),
                        (None, None) => break Some(Ordering::Equal),
                    }
                }""", """                let mut res = None;
                for i in 0..a.len().min(b.len()) {
                    let r = cmp_impl(&a[i], &b[i], cache)?;
                    if r != Some(Ordering::Equal) { res = Some(r); break }
                }
                res.unwrap_or_else(|| Some(a.len().cmp(&b.len())))"""),
]
