PROPERTY = 'P12'
EDITS = [('process.rs', '                for index in index_set.into_iter().rev() {\n                    list.remove(index);', '                for index in index_set {\n                    list.remove(index);')]
NEEDS = 'deleting several items at once with a list of indices'
BREAKS = 'after the first removal the checked indices no longer belong to the list as it is, so wrong items go and others are silently kept'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let xml = project(&["n", "a", "z"], "", &[&format!("{GO}{}{}{}{}", set("a", &list(&[&num(1), &num(2), &num(3)])), b("doDeleteFromList", &[&list(&[&num(1), &num(3)]), &var("a")]), set("n", &attr("length", &var("a"))), set("z", &item(&num(1), &var("a"))))], "");
    let mut r = load(&xml);
    d.ok("ends", r.start(3000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("length", r.global("n").as_str(), "1.0");
    d.ok("item", r.global("z").contains('2'));
    d.done()
}
'''
