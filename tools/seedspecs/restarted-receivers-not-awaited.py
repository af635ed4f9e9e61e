PROPERTY = 'P26'
EDITS = [('project.rs', """                                all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
                                self.scripts[i].stop_all(&mut self.state);
                                self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier: barrier.clone(), reply_key: None, local_message: Some(msg_type.clone()) }, 0);""", """                                all_contexts_consumer.do_once(self); // need to consume all contexts before scheduling things in the future
                                let running = self.scripts[i].process.map(|key| self.state.processes.get(key).is_some()).unwrap_or(false);
                                let barrier = if running { None } else { barrier.clone() };
                                self.scripts[i].stop_all(&mut self.state);
                                self.scripts[i].schedule(&mut self.state, PartialProcContext { state, locals: Default::default(), barrier, reply_key: None, local_message: Some(msg_type.clone()) }, 0);""")]
NEEDS = "a broadcast-and-wait whose receiving script is still running from an earlier broadcast"
BREAKS = "the restarted receiver does not hold the barrier, so the broadcaster goes on before it has ended"
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let a = sprite("A", &[], &[&format!("{}{}{}", on_msg("x"), repeat(8, &[&set("m", &var("m"))]), inc("n"))]);
    let xml = project(&["n", "m", "k"], "", &[&format!("{GO}{}{}{}{}", b("doBroadcast", &[&num("x")]), repeat(3, &[&set("k", &var("k"))]), b("doBroadcastAndWait", &[&num("x")]), set("k", &var("n")))], &a);
    let mut r = load(&xml);
    d.ok("becomes idle", r.start(2000));
    d.eq("errors", r.errors.len(), 0);
    d.eq("receivers finished when the broadcaster went on", r.global("k").as_str(), "1.0");
    d.done()
}
'''
