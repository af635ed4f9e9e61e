R = 'process.rs'
def b(p, o, n, *k): return ('break', p, R, o, n) + k
def k(p, o, n, *kk): return ('keep', p, R, o, n) + kk
DROP = "if op_type == OpType::Nondeterministic { cache.remove(&cache_key); }\n"
MUTS = [
    b('P09', 'let cache_key = (a.identity(), b.identity(), matrix_mode);', 'let cache_key = (a.identity(), a.identity(), matrix_mode);'),
    b('P09', 'match cache.get(&cache_key) {\n            Some(x) => x.clone(),\n            None => {\n                let checker', 'match cache.get(&(b.identity(), b.identity(), matrix_mode)) {\n            Some(x) => x.clone(),\n            None => {\n                let checker'),
    b('P09', '&mut cache, OpType::Nondeterministic, &|_, system, x| {', '&mut cache, OpType::Deterministic, &|_, system, x| {'),
    b('P09', '&mut cache, OpType::Nondeterministic, |_, system, a, b| {', '&mut cache, OpType::Deterministic, |_, system, a, b| {'),
    b('P09', '                        ' + DROP, '', 1),
    b('P09', 'OpType::Nondeterministic => { cache.remove(&cache_key); }', 'OpType::Nondeterministic => (),'),
    b('P09', 'Relation::NotEqual => ord != Some(Ordering::Equal)', 'Relation::NotEqual => ord.is_some() && ord != Some(Ordering::Equal)'),
    b('P09', 'Relation::Equal => ord == Some(Ordering::Equal)', 'Relation::Equal => ord.unwrap_or(Ordering::Equal) == Ordering::Equal'),
    k('P09', 'Relation::NotEqual => ord != Some(Ordering::Equal)', 'Relation::NotEqual => !matches!(ord, Some(Ordering::Equal))'),
    k('P09', 'Relation::NotEqual => ord != Some(Ordering::Equal)', 'Relation::NotEqual => ord.is_none() || ord != Some(Ordering::Equal)'),
    k('P09', '                        ' + DROP, '                        if let OpType::Nondeterministic = op_type { let _ = cache.remove(&cache_key); }\n', 1),
    k('P09', 'let cache_key = (a.identity(), b.identity(), matrix_mode);', 'let (ka, kb) = (a.identity(), b.identity());\n        let cache_key = (ka, kb, matrix_mode);'),
]
