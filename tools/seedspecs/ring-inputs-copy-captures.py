PROPERTY = 'P15'
EDITS = [('process.rs', '            for (k, v) in closure.captures.iter_mut() {\n                locals.define_or_redefine(k, v.alias(mc));\n            }', '            for (k, v) in closure.captures.iter_mut() {\n                locals.define_or_redefine(k, if args == 0 { v.alias(mc) } else { v.get().clone().into() });\n            }')]
NEEDS = 'a ring with inputs that changes a script variable it captured'
BREAKS = 'the change is made to a copy and is lost'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let decl = |v: &str| format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#);
    let ring1 = |p: &str, s: &[&str]| format!(r#"<block s="reifyScript">{}<list><l>{p}</l></list></block>"#, body(s));
    let xml = project(&["n", "m"], "", &[&format!("{GO}{}{}{}{}{}{}{}{}", decl("x"), set("x", &num(1)),
        b("doRun", &[&ring(&[&inc("x")]), "<list></list>"]), set("n", &var("x")),
        b("doRun", &[&ring1("p", &[&set("x", &b("reportSum", &[&var("x"), &var("p")]))]), "<list><l>40</l></list>"]), set("m", &var("x")), "", "")], "");
    let mut r = load(&xml);
    d.ok("ends", r.start(3000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("without inputs", r.global("n").as_str(), "2.0");
    d.eq("with inputs", r.global("m").as_str(), "42.0");
    d.done()
}
'''
