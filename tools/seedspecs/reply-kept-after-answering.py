PROPERTY = 'P04'
EDITS = [('process.rs', 'if let Some(key) = self.reply_key.take() {\n                    system.send_reply(key, value)?;', 'if let Some(key) = &self.reply_key {\n                    system.send_reply(key.clone(), value)?; // the message is over when the script is')]
NEEDS = 'a script started by a message that expects a reply and that runs its reply block twice'
BREAKS = 'the message is answered twice'
MAIN = '''mod harness;
use harness::*;
fn main() {
    let mut d = Demo(0);
    let reply = |x: &str| b("doSocketResponse", &[&num(x)]);
    for (blocks, want) in [(vec![reply("one")], 1), (vec![reply("one"), reply("two")], 1), (vec![], 0)] {
        let mut r = load(&project(&["n"], "", &[&format!("{}{}{}", on_net("message"), blocks.concat(), inc("n"))], ""));
        r.sys.incoming.borrow_mut().push_back(IncomingMessage { msg_type: "message".into(), values: Default::default(), reply_key: Some(InternReplyKey { src_id: "a".into(), request_id: "b".into() }) });
        r.steps(200);
        d.eq("ran", r.global("n").as_str(), "1.0");
        d.eq("replies", r.sys.replies_out.borrow().len(), want);
    }
    d.done()
}
'''
