PROPERTY = 'P45'
EDITS = [('bytecode.rs', "image_refs: &mut BTreeMap<*const (Vec<u8>, Option<(f64, f64)>, CompactString), usize>", "image_refs: &mut BTreeMap<(usize, &'a str), usize>"),
    ('bytecode.rs', "image_refs.entry(Rc::as_ptr(x)).or_insert_with", "image_refs.entry((x.0.len(), x.2.as_str())).or_insert_with")]
NEEDS = 'two sprites with different costumes of the same name and size in bytes'
BREAKS = 'the second sprite is loaded with the costume of the first'
MAIN = '''mod harness;
use harness::*;
fn costumes(r: &Run, entity: &str) -> Vec<(String, Vec<u8>)> {
    r.arena.mutate(|_, env| {
        let proj = env.proj.borrow();
        let ctx = proj.get_global_context();
        let ctx = ctx.borrow();
        let e = ctx.entities.iter().find(|x| x.0.as_str() == entity).unwrap().1.borrow();
        e.costume_list.iter().map(|x| (x.0.to_string(), x.1.content.clone())).collect()
    })
}
fn main() {
    let mut d = Demo(0);
    let none = r#"<costumes><list struct="atomic"></list></costumes>"#;
    let with = |id: &str| format!(r#"<costumes><list><item><ref mediaID="{id}_cst_costume1"/></item></list></costumes>"#);
    let media = |id: &str, data: &str| format!(r#"<costume mediaID="{id}_cst_costume1" name="costume1" center-x="1" center-y="2" image="data:image/png;base64,{data}"/>"#);
    let a = sprite("A", &[], &[]).replace(none, &with("A"));
    let b = sprite("B", &[], &[]).replace(none, &with("B"));
    let xml = project(&["n"], "", &[], &format!("{a}{b}")).replace("</media>", &format!("{}{}</media>", media("A", "AAECAw=="), media("B", "BAUGBw==")));
    let r = load(&xml);
    d.eq("A", costumes(&r, "A"), vec![("costume1".to_string(), vec![0u8, 1, 2, 3])]);
    d.eq("B", costumes(&r, "B"), vec![("costume1".to_string(), vec![4u8, 5, 6, 7])]);
    d.done()
}
'''
