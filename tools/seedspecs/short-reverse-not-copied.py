PROPERTY = 'P14'
EDITS = [('process.rs', '                let list = self.value_stack.pop().unwrap().as_list()?;\n                self.value_stack.push(Gc::new(mc, RefLock::new(list.borrow().iter().rev().cloned().collect::<VecDeque<_>>())).into());', '                let list = self.value_stack.pop().unwrap().as_list()?;\n                if list.borrow().len() < 2 {\n                    self.value_stack.push(list.into()); // reads the same in both directions\n                    self.pos = aft_pos;\n                    return Ok(ProcessStep::Normal);\n                }\n                self.value_stack.push(Gc::new(mc, RefLock::new(list.borrow().iter().rev().cloned().collect::<VecDeque<_>>())).into());')]
NEEDS = 'reversing a list of at most one item and modifying the result (or the source) afterwards'
BREAKS = 'the reversed list is the original list, so adding to one adds to the other'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let xml = project(&["n", "a", "z"], "", &[&format!("{GO}{}{}{}{}", set("a", &list(&[&num(7)])), set("z", &attr("reverse", &var("a"))), push(&num(8), &var("z")), set("n", &attr("length", &var("a"))))], "");
    let mut r = load(&xml);
    d.ok("ends", r.start(3000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("length of the original", r.global("n").as_str(), "1.0");
    d.done()
}
'''
