PROPERTY = 'P05'
EDITS = [('process.rs', '                self.handler_stack.drain(handler_stack_size..);\n                debug_assert_eq!(self.value_stack.len(), *value_stack_size);\n                debug_assert_eq!(self.handler_stack.len(), *handler_stack_size);', '                if self.call_stack.len() == 1 { self.handler_stack.drain(handler_stack_size..); } // handlers of the callee are replaced by later ones\n                debug_assert_eq!(self.value_stack.len(), *value_stack_size);')]
NEEDS = 'a custom block or ring that returns from inside a try block, and an error in the caller afterwards'
BREAKS = "the handler of the finished call is still there and takes the caller's error"
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let f = r#"<block-definition s="f" type="reporter" category="custom"><header></header><code></code><translations></translations><inputs></inputs><script>"#.to_owned()
        + &tries(&[&b("doReport", &[&num(4)])], &[&inc("m")]) + "</script></block-definition>";
    let xml = project(&["n", "m", "k"], &f, &[&format!("{GO}{}", tries(&[&set("n", r#"<custom-block s="f"></custom-block>"#), &b("doThrow", &[&num("x")])], &[&inc("k")]))], "");
    let mut r = load(&xml);
    r.start(3000);
    d.eq("errors", r.errors.len(), 0);
    d.eq("the handler of the call", r.global("m").as_str(), "\\"0\\"");
    d.eq("the handler of the caller", r.global("k").as_str(), "1.0");
    d.done()
}
'''
