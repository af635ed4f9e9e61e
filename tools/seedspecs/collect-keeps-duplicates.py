PROPERTY = 'P30'
EDITS = [('vecmap.rs', '        let mut res = VecMap::<K, V, SORTED>::new();\n        for (k, v) in iter {\n            res.insert(k, v);\n        }\n        res', '        let mut values: Vec<_> = iter.into_iter().map(|(key, value)| Entry { key, value }).collect();\n        if SORTED { values.sort_by(|a, b| a.key.cmp(&b.key)); } // faster than inserting one by one\n        Self { values }')]
NEEDS = 'collecting pairs in which a key occurs twice'
BREAKS = 'the map holds two entries for one key and finds either of them'
MAIN = '''use netsblox_vm::vecmap::VecMap;
fn main() {
    let m: VecMap<i32, i32, true> = [(2, 1), (1, 5), (2, 9)].into_iter().collect();
    let u: VecMap<i32, i32, false> = [(2, 1), (1, 5), (2, 9)].into_iter().collect();
    let bad = m.len() != 2 || u.len() != 2 || m.get(&2) != Some(&9) || u.get(&2) != Some(&9);
    if bad { println!("sizes {} {}", m.len(), u.len()); }
    std::process::exit(bad as i32)
}
'''
