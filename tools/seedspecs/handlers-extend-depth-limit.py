PROPERTY = 'P06'
EDITS = [('process.rs', '                let limit = global_context.settings.max_call_depth;\n                if self.call_stack.len() >= limit {\n                    return Err(ErrorCause::CallDepthLimit { limit });\n                }\n\n                let params', '                let limit = global_context.settings.max_call_depth + self.handler_stack.len(); // leave some room for the error handlers\n                if self.call_stack.len() >= limit {\n                    return Err(ErrorCause::CallDepthLimit { limit });\n                }\n\n                let params')]
NEEDS = 'a custom block that calls itself from within a try block'
BREAKS = 'each level raises the limit by one, so the recursion never reaches it and memory is exhausted'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let f = r#"<block-definition s="f" type="command" category="custom"><header></header><code></code><translations></translations><inputs></inputs><script>"#.to_owned()
        + &inc("n") + &tries(&[r#"<custom-block s="f"></custom-block>"#], &[&inc("m")]) + "</script></block-definition>";
    let xml = project(&["n", "m"], &f, &[&format!(r#"{GO}<custom-block s="f"></custom-block>"#)], "");
    let mut r = load(&xml);
    r.start(40000);
    let n: f64 = r.global("n").parse().unwrap();
    d.ok("the recursion is cut off", n <= Settings::default().max_call_depth as f64);
    d.eq("errors", r.errors.len(), 0);
    d.done()
}
'''
