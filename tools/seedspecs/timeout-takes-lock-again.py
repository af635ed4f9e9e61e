PROPERTY = 'P33'
EDITS = [('std_system.rs', '        let mut message_replies = self.message_replies.lock().unwrap();\n        let entry = message_replies.get(key).unwrap();\n        if entry.value.is_some() {', '        let message_replies = self.message_replies.lock().unwrap();\n        let entry = message_replies.get(key).unwrap();\n        let expired = self.clock.read(Precision::Low) > entry.expiry;\n        if entry.value.is_some() || expired { return AsyncResult::Completed(self.forget_reply(key)); }\n        AsyncResult::Pending\n    }\n    fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), ErrorCause<C, Self>> {\n        self.message_sender.send(OutgoingMessage::Reply { value, reply_key: key }).unwrap();\n        Ok(())\n    }\n    fn receive_message(&self) -> Option<IncomingMessage> {\n        self.message_receiver.try_recv().ok()\n    }\n}\nimpl<C: CustomTypes<StdSystem<C>>> StdSystem<C> {\n    fn forget_reply(&self, key: &ExternReplyKey) -> Option<Json> {\n        self.message_replies.lock().unwrap().remove(key).unwrap().value\n    }\n}\n'), ('std_system.rs', '            return AsyncResult::Completed(message_replies.remove(key).unwrap().value);\n        }\n        if self.clock.read(Precision::Low) > entry.expiry {\n            message_replies.remove(key).unwrap();\n            return AsyncResult::Completed(None);\n        }\n        AsyncResult::Pending\n    }\n    fn send_reply(&self, key: InternReplyKey, value: Json) -> Result<(), ErrorCause<C, Self>> {\n        self.message_sender.send(OutgoingMessage::Reply { value, reply_key: key }).unwrap();\n        Ok(())\n    }\n    fn receive_message(&self) -> Option<IncomingMessage> {\n        self.message_receiver.try_recv().ok()\n    }\n}\n', '')]
NEEDS = 'a message whose reply has arrived or timed out'
BREAKS = 'the removal of the entry takes the lock its caller holds, so the VM hangs for good'
KIND = 'std'
MAIN = '''mod stdh;
use stdh::*;
fn main() {
    let mut d = Demo(0);
    let ask = |v: &str| set(v, r#"<block s="doSocketRequest"><l>message</l><l>hi</l><l>someone</l></block>"#);
    std::thread::spawn(|| { std::thread::sleep(std::time::Duration::from_secs(12)); println!("hangs"); std::process::exit(1) });
    let mut r = load(&project(&["n", "m"], "", &[&format!("{GO}{}{}", ask("n"), inc("m"))], ""), props());
    r.input(Input::Start);
    d.ok("went on after the timeout", r.run(8000, |r| r.global("m") == "1"));
    d.done(r)
}
'''
