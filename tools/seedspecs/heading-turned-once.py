PROPERTY = 'P45'
EDITS = [('bytecode.rs', "let heading = Number::new(util::modulus(entity.heading, 360.0))?;", "let heading = Number::new(if entity.heading < 0.0 { entity.heading + 360.0 } else { entity.heading % 360.0 })?;")]
NEEDS = 'a sprite saved with a heading of minus one turn or less'
BREAKS = 'the sprite starts with a heading outside of one turn'
MAIN = '''mod harness;
use harness::*;
fn heading(r: &Run, entity: &str) -> f64 {
    r.arena.mutate(|_, env| {
        let proj = env.proj.borrow();
        let ctx = proj.get_global_context();
        let ctx = ctx.borrow();
        let e = ctx.entities.iter().find(|x| x.0.as_str() == entity).unwrap().1.borrow();
        e.state.props.heading.get()
    })
}
fn main() {
    let mut d = Demo(0);
    for (given, want) in [("90", 90.0), ("-90", 270.0), ("450", 90.0), ("-450", 270.0), ("-1080", 0.0)] {
        let a = sprite("A", &[], &[]).replace("heading=\\"90\\"", &format!("heading=\\"{given}\\""));
        let r = load(&project(&["n"], "", &[], &a));
        d.eq(given, heading(&r, "A"), want);
    }
    d.done()
}
'''
