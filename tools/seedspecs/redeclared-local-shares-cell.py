PROPERTY = 'P15'
EDITS = [('process.rs', 'self.call_stack.last_mut().unwrap().locals.define_or_redefine(var, Shared::Unique(Number::new(0.0).unwrap().into()));', 'let locals = &mut self.call_stack.last_mut().unwrap().locals;\n                match locals.lookup_mut(var) {\n                    Some(x) => x.set(mc, Number::new(0.0).unwrap().into()),\n                    None => locals.define_or_redefine(var, Shared::Unique(Number::new(0.0).unwrap().into())),\n                }')]
NEEDS = 'a ring that captures a script variable which is declared again later, such as in the next turn of a loop'
BREAKS = 'rings made in different turns of a loop share one variable instead of each keeping its own'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let xml = project(&["n", "l", "m", "i"], "", &[&format!("{GO}{}{}{}{}", set("l", &list(&[])),
        repeat(3, &[&inc("i"), &decl("x"), &set("x", &var("i")), &push(&rep_ring(&var("x")), &var("l"))]),
        set("n", &call(&item(&num(1), &var("l")))), set("m", &call(&item(&num(3), &var("l")))))], "");
    let mut r = load(&xml);
    d.ok("ends", r.start(3000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("first ring", r.global("n").as_str(), "1.0");
    d.eq("last ring", r.global("m").as_str(), "3.0");
    d.done()
}
'''
