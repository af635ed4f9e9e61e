PROPERTY = 'P07'
EDITS = [('bytecode.rs', '                self.append_expr(condition, entity)?;\n                let exit_jump_pos = self.ins.len();\n                self.ins.push(InternalInstruction::Illegal);\n\n                for stmt in stmts {\n                    self.append_stmt(stmt, entity)?;\n                }\n                self.ins.push(Instruction::Yield.into());\n                self.ins.push(Instruction::Jump { to: top }.into());\n                let aft = self.ins.len();\n\n                self.ins[exit_jump_pos]', '                self.append_expr(condition, entity)?;\n                let exit_jump_pos = self.ins.len();\n                self.ins.push(InternalInstruction::Illegal);\n\n                for stmt in stmts {\n                    self.append_stmt(stmt, entity)?;\n                }\n                if !stmts.is_empty() { self.ins.push(Instruction::Yield.into()); }\n                self.ins.push(Instruction::Jump { to: top }.into());\n                let aft = self.ins.len();\n\n                self.ins[exit_jump_pos]')]
NEEDS = 'a repeat-until loop with an empty body'
BREAKS = 'the loop spins without giving other scripts a turn'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    fn tries(a: &[&str], h: &[&str]) -> String { format!(r#"<block s="doTryCatch">{}<l>err</l>{}</block>"#, body(a), body(h)) }
    fn decl(v: &str) -> String { format!(r#"<block s="doDeclareVariables"><list><l>{v}</l></list></block>"#) }
    fn run(x: &str) -> String { b("doRun", &[x, "<list></list>"]) }
    fn call(x: &str) -> String { b("evaluate", &[x, "<list></list>"]) }
    fn push(x: &str, l: &str) -> String { b("doAddToList", &[x, l]) }
    fn item(i: &str, l: &str) -> String { b("reportListItem", &[i, l]) }
    fn attr(a: &str, l: &str) -> String { b("reportListAttribute", &[&opt(a), l]) }
    let _ = (tries(&[], &[]), decl("x"), run("x"), call("x"), push("x", "x"), item("x", "x"), attr("x", "x"));
    let xml = project(&["n", "m"], "", &[&format!("{GO}{}{}", b("doUntil", &[&b("reportEquals", &[&var("n"), &num(1)]), &body(&[])]), inc("m")), &format!("{GO}{}", inc("n"))], "");
    let mut r = load(&xml);
    d.ok("ends", r.start(3000));
    d.eq("second script", r.global("n").as_str(), "1.0");
    d.eq("first script", r.global("m").as_str(), "1.0");
    d.done()
}
'''
