PROPERTY = 'P25'
EDITS = [('project.rs', '''            Err(error) => {
                let proc = self.state.processes.remove(proc_key).unwrap();''', '''            Err(error) => {
                if let Some(script) = self.scripts.iter_mut().find(|x| x.process == Some(proc_key)) {
                    script.stop_all(&mut State { global_context: self.state.global_context, processes: Default::default(), process_queue: Default::default() });
                }
                let proc = self.state.processes.remove(proc_key).unwrap();''')]
NEEDS = 'a script that fails while another start of it is queued'
BREAKS = 'the queued start never happens'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let xml = project(&["n", "m"], "", &[&format!("{}{}{}{}", on_net("message"), inc("n"), repeat(3, &[YIELD]), b("doThrow", &[&num("x")]))], "");
    let mut r = load(&xml);
    for _ in 0..3 { r.sys.incoming.borrow_mut().push_back(message("message")); }
    r.steps(500);
    d.eq("starts", r.global("n").as_str(), "3.0");
    d.eq("errors", r.errors.len(), 3);
    d.done()
}
'''
