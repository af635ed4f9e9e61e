PROPERTY = 'P44'
EDITS = [('bytecode.rs', """            ast::ExprKind::MakeList { values } => {
                for value in values.iter() {
                    self.append_expr(value, entity)?;
                }
                VariadicLen::Fixed(values.len())
            }
""", """            ast::ExprKind::MakeList { values } if values.len() < 128 => {
                for value in values.iter() {
                    self.append_expr(value, entity)?;
                }
                VariadicLen::Fixed(values.len())
            }
"""),
    ('bytecode.rs', """            ast::ExprKind::MakeList { values } => {
                for value in values {
                    self.append_expr(value, entity)?;
                }
                self.ins.push(Instruction::VariadicOp { op: VariadicOp::MakeList, len: VariadicLen::Fixed(values.len()) }.into());
            }
""", """            ast::ExprKind::MakeList { .. } => self.append_variadic_op(entity, expr, VariadicOp::MakeList)?,
""")]
NEEDS = 'a list block with at least 128 items in a project'
BREAKS = 'compiling the list asks for the length of the list, which compiles the list: compilation recurses until the stack overflows'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    for n in [3usize, 100, 300] {
        let items: Vec<String> = (0..n).map(|_| var("n")).collect();
        let items: Vec<&str> = items.iter().map(|x| x.as_str()).collect();
        let xml = project(&["n"], "", &[&format!("{GO}{}", set("n", &b("reportListAttribute", &[&opt("length"), &list(&items)])))], "");
        let mut r = load(&xml);
        d.ok("ends", r.start(3000));
        d.eq("length", r.global("n"), format!("{n}.0"));
    }
    d.done()
}
'''
