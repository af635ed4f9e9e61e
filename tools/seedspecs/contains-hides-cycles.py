PROPERTY = 'P16'
EDITS = [('process.rs', 'self.value_stack.push(ops::find(list, &value)?.is_some().into());', 'self.value_stack.push(ops::find(list, &value).ok().flatten().is_some().into());')]
NEEDS = 'asking whether a list contains a cyclic list it has to be compared with'
BREAKS = 'the failure to compare is dropped and the script goes on with the answer false'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let cyc = |v: &str| format!("{}{}", set(v, &list(&[])), push(&var(v), &var(v)));
    let xml = project(&["n", "a", "z"], "", &[&format!("{GO}{}{}{}", cyc("a"), cyc("z"), tries(&[&set("n", &b("reportListContainsItem", &[&list(&[&var("a")]), &var("z")])), &set("n", &num(3))], &[&set("n", &num(5))]))], "");
    let mut r = load(&xml);
    d.ok("ends", r.start(3000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("caught", r.global("n").as_str(), "\\"5\\"");
    d.done()
}
'''
