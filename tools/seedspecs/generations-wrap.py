PROPERTY = 'P29'
EDITS = [('slotmap.rs', '        let res = if slot.generation == key.get_generation() { slot.value.take() } else { None };\n        if res.is_some() {\n            slot.generation += 1;', '        let res = if slot.generation == key.get_generation() { slot.value.take() } else { None };\n        if res.is_some() {\n            slot.generation = (slot.generation + 1) % 256; // must not overflow')]
NEEDS = 'a handle kept while its slot is reused 256 times'
BREAKS = 'the stale handle gives access to the newer value'
MAIN = '''use netsblox_vm::slotmap::SlotMap;
netsblox_vm::new_key! { struct K; }
fn main() {
    let mut m: SlotMap<K, i32> = SlotMap::new();
    let a = m.insert(-1);
    m.remove(a);
    let mut bad = false;
    for i in 0..1000 { let b = m.insert(i); if m.get(a).is_some() { bad = true } m.remove(b); }
    if bad { println!("a stale handle worked"); }
    std::process::exit(bad as i32)
}
'''
