PROPERTY = 'P02'
EDITS = [('bytecode.rs', '                self.ins.push(Instruction::CallClosure { new_entity: new_entity.is_some(), args: args.len() }.into());\n                self.ins.push(Instruction::PopValue.into());\n            }\n            ast::StmtKind::ForkClosure', '                self.ins.push(Instruction::CallClosure { new_entity: new_entity.is_some(), args: args.len() }.into());\n                if new_entity.is_none() || args.is_empty() { self.ins.push(Instruction::PopValue.into()); }\n            }\n            ast::StmtKind::ForkClosure')]
NEEDS = 'telling another sprite to run a ring with inputs inside a counted loop'
BREAKS = 'the result of the ring stays on the operand stack, so the loop counts something else'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let xml = project(&["n"], "", &[&format!("{GO}{}", repeat(3, &[&b("doTellTo", &[&num("A"), &format!(r#"<block s="reifyScript">{}<list><l>x</l></list></block>"#, body(&[&inc("n")])), &format!("<list>{}</list>", num(1))])]))], &sprite("A", &[], &[]));
    let mut r = load(&xml);
    d.ok("ends", r.start(3000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("turns", r.global("n").as_str(), "3.0");
    d.done()
}
'''
