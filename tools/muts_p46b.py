
R = 'process.rs'
def b(o, n, *k): return ('break', 'P46', R, o, n) + k
def k(o, n, *kk): return ('keep', 'P46', R, o, n) + kk
G="<'gc, C: CustomTypes<S>, S: System<C>>"
V="&Value<'gc, C, S>"
AT="    pub(super) fn cmp<'gc"
MUTS=[
 ('keep','P46',R,[("""        match cache.get(&key) {
            Some(Some(x)) => return Ok(*x),
            Some(None) => return Err(ErrorCause::CyclicValue),
            None => { cache.insert(key, None); }
        }

        let res""","""        match cache.entry(key) {
            alloc::collections::btree_map::Entry::Occupied(x) => return match x.get() {
                Some(x) => Ok(*x),
                None => Err(ErrorCause::CyclicValue),
            },
            alloc::collections::btree_map::Entry::Vacant(x) => { x.insert(None); }
        }

        let res""")],''),
 ('keep','P46',R,[("            (Value::Closure(a), Value::Closure(b)) => if a.as_ptr() == b.as_ptr() { Some(Ordering::Equal) } else { None },\n            (Value::Closure(_), _) | (_, Value::Closure(_)) => None,","            (Value::Closure(_), _) | (_, Value::Closure(_)) => cmp_objects(a, b),"),(AT,"    fn cmp_objects"+G+"(a: "+V+", b: "+V+") -> Option<Ordering> {\n        match (a, b) {\n            (Value::Closure(a), Value::Closure(b)) if a.as_ptr() == b.as_ptr() => Some(Ordering::Equal),\n            _ => None,\n        }\n    }\n"+AT)],''),
 ('keep','P46',R,[("            (Value::Closure(a), Value::Closure(b)) => if a.as_ptr() == b.as_ptr() { Some(Ordering::Equal) } else { None },\n            (Value::Closure(_), _) | (_, Value::Closure(_)) => None,","            (Value::Closure(_), _) | (_, Value::Closure(_)) => if same_object(a, b) { Some(Ordering::Equal) } else { None },"),(AT,"    fn same_object"+G+"(a: "+V+", b: "+V+") -> bool {\n        match (a, b) {\n            (Value::Closure(a), Value::Closure(b)) => a.as_ptr() == b.as_ptr(),\n            _ => false,\n        }\n    }\n"+AT)],''),
 ('keep','P46',R,[("(Value::Closure(a), Value::Closure(b)) => if a.as_ptr() == b.as_ptr() { Some(Ordering::Equal) } else { None },","(Value::Closure(_), Value::Closure(_)) => if identical(a, b) { Some(Ordering::Equal) } else { None },")],''),
 ('keep','P46',R,[("let key = (a.identity(), b.identity());\n        match cache","let (ka, kb) = (a.identity(), b.identity());\n        let key = (ka, kb);\n        match cache"),("        *cache.get_mut(&key).unwrap() = Some(res);","        cache.insert(key, Some(res));")],''),
 ('keep','P46',R,[("""                Some(b) => a.cmp(&b).into(),
                None => UniCase::new(SimpleValue::stringify_number(*a).as_str()).cmp(&UniCase::new(b.as_str())).into(),""","""                Some(b) => a.cmp(&b).into(),
                None => cmp_text(&SimpleValue::stringify_number(*a), b).into(),"""),(AT,"    fn cmp_text(a: &str, b: &str) -> Ordering { UniCase::new(a).cmp(&UniCase::new(b)) }\n"+AT)],''),
 ('keep','P46',R,[("match SimpleValue::parse_number(a).and_then(|a| SimpleValue::parse_number(b).map(|b| (a, b))) {","match SimpleValue::parse_number(a).zip(SimpleValue::parse_number(b)) {")],''),
 ('keep','P46',R,[("""match SimpleValue::parse_number(a).and_then(|a| SimpleValue::parse_number(b).map(|b| (a, b))) {
                Some((a, b)) => a.cmp(&b).into(),
                None =>""","""match (SimpleValue::parse_number(a), SimpleValue::parse_number(b)) {
                (Some(a), Some(b)) => a.cmp(&b).into(),
                _ =>""")],''),
 ('keep','P46',R,[("            (Value::Number(_), _) | (_, Value::Number(_)) => false,\n\n            (Value::Text(a)","            (Value::Text(a)"),("            (Value::Bool(_), _) | (_, Value::Bool(_)) => false,\n\n",""),("            (Value::Native(a), Value::Native(b)) => Rc::ptr_eq(a, b),\n","            (Value::Native(a), Value::Native(b)) => Rc::ptr_eq(a, b),\n            _ => false,\n")],''),
 ('keep','P46',R,[("        Ok(None)\n    }\n\n}","XX")],'') ,
 ('keep','P46',R,[("(Value::Native(a), Value::Native(b)) => if Rc::ptr_eq(a, b) {","(Value::Native(a), Value::Native(b)) => if core::ptr::eq(Rc::as_ptr(a), Rc::as_ptr(b)) {")],''),
]
MUTS=[m for m in MUTS if m[3][0][1]!='XX']
