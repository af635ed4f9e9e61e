S='std_system.rs'
INS="                self.message_replies.lock().unwrap().insert(reply_key.clone(), ReplyEntry { expiry, value: None });\n"
SEND="        self.message_sender.send(msg).unwrap();\n        Ok(reply_key)"
GV="        if entry.value.is_some() {\n            return AsyncResult::Completed(message_replies.remove(key).unwrap().value);\n        }\n"
GE="        if self.clock.read(Precision::Low) > entry.expiry {\n            message_replies.remove(key).unwrap();\n            return AsyncResult::Completed(None);\n        }\n"
RX="                                        if let Some(entry) = message_replies.lock().unwrap().get_mut(&reply_key) {\n                                            if entry.value.is_none() {\n                                                entry.value = Some(value);\n                                            }\n                                        }\n"
EXT="                let expiry = self.clock.read(Precision::Medium) + MESSAGE_REPLY_TIMEOUT;\n"
IN="                                            true => match (msg.remove(\"srcId\"), msg.remove(\"requestId\")) {\n                                                (Some(Json::String(src_id)), Some(Json::String(request_id))) => Some(InternReplyKey { src_id: src_id.into(), request_id: request_id.into() }),\n                                                _ => return,\n                                            }\n                                            false => None,"
BL="                            \"msgType\": msg_type,\n                            \"requestId\": reply_key.request_id,\n"
MUTS = [
('break','P32',S,[(INS,''),(SEND,"        self.message_sender.send(msg).unwrap();\n        if let Some(k) = &reply_key { self.message_replies.lock().unwrap().insert(k.clone(), ReplyEntry { expiry: self.clock.read(Precision::Medium) + MESSAGE_REPLY_TIMEOUT, value: None }); }\n        Ok(reply_key)"),(EXT,"")],None),
('break','P32',S,EXT,"                let expiry = self.clock.read(Precision::Medium);\n"),
('break','P32',S,"const MESSAGE_REPLY_TIMEOUT: Duration = Duration::from_millis(1500);","const MESSAGE_REPLY_TIMEOUT: Duration = Duration::from_millis(0);"),
('break','P32',S,"ExternReplyKey { request_id: format_compact!(\"{}\", Uuid::new_v4()) }","ExternReplyKey { request_id: format_compact!(\"{msg_type}\") }"),
('break','P32',S,SEND,"        self.message_sender.send(msg).unwrap();\n        Ok(reply_key.filter(|_| !expect_reply))"),
('break','P32',S,GV,"        if entry.value.is_some() {\n            return AsyncResult::Completed(entry.value.clone());\n        }\n"),
('break','P32',S,[(GV,''),(GE,GE+GV)],None),
('break','P32',S,GE,GE.replace(' > ',' < ')),
('break','P32',S,GE,''),
('break','P32',S,GE,"        if self.clock.read(Precision::Low) > entry.expiry {\n            return AsyncResult::Completed(None);\n        }\n"),
('break','P32',S,RX,"                                        if let Some(entry) = message_replies.lock().unwrap().get_mut(&reply_key) {\n                                            entry.value = Some(value);\n                                        }\n"),
('break','P32',S,RX,"                                        message_replies.lock().unwrap().entry(reply_key).or_insert(ReplyEntry { expiry: time::OffsetDateTime::now_utc(), value: None }).value.get_or_insert(value);\n"),
('break','P32',S,RX,"                                        message_replies.lock().unwrap().insert(reply_key, ReplyEntry { expiry: time::OffsetDateTime::now_utc(), value: Some(value) });\n"),
('break','P32',S,RX,"                                        if let Some(entry) = message_replies.lock().unwrap().get_mut(&reply_key) {\n                                            if entry.value.is_none() && !value.is_null() {\n                                                entry.value = Some(value);\n                                            }\n                                        }\n"),
('break','P32',S,RX,"                                        if let Some(entry) = message_replies.lock().unwrap().values_mut().next() {\n                                            if entry.value.is_none() {\n                                                entry.value = Some(value);\n                                            }\n                                        }\n"),
('break','P32',S,RX,"                                        if let Some(entry) = message_replies.lock().unwrap().get_mut(&reply_key) {\n                                            match entry.value { None => entry.value = Some(value), Some(_) => entry.value = None }\n                                        }\n"),
('break','P32',S,IN,IN.replace('true => match','false => match').replace('false => None','true => None')),
('break','P32',S,IN,IN.replace('src_id: src_id.into(), request_id: request_id.into()','src_id: request_id.into(), request_id: src_id.into()')),
('break','P32',S,IN,IN.replace('_ => return','_ => None')),
('break','P32',S,BL,"                            \"msgType\": msg_type,\n"),
('break','P32',S,"                            \"dstId\": reply_key.src_id,","                            \"dstId\": src_id,"),
('break','P32',S,"                while let Ok(request) = out_receiver.recv() {\n","                while let Ok(request) = out_receiver.recv() {\n                    if let OutgoingMessage::Reply { value, .. } = &request { if value.is_null() { continue } }\n"),
('break','P32',S,"        self.message_sender.send(OutgoingMessage::Reply { value, reply_key: key }).unwrap();\n","        if !value.is_null() { self.message_sender.send(OutgoingMessage::Reply { value, reply_key: key }).unwrap(); }\n"),
('break','P32',S,"false => (OutgoingMessage::Normal { msg_type, values, targets }, None),","false => (OutgoingMessage::Normal { msg_type, values: Default::default(), targets }, None),"),
('keep','P32',S,SEND,"        let res = Ok(reply_key);\n        self.message_sender.send(msg).unwrap();\n        res"),
('keep','P32',S,GV+GE+"        AsyncResult::Pending","        let expired = self.clock.read(Precision::Low) > entry.expiry;\n        if entry.value.is_none() && !expired {\n            return AsyncResult::Pending;\n        }\n        AsyncResult::Completed(message_replies.remove(key).unwrap().value)"),
('keep','P32',S,GE,"        if entry.expiry < self.clock.read(Precision::Low) {\n            message_replies.remove(key).unwrap();\n            return AsyncResult::Completed(None);\n        }\n"),
('keep','P32',S,RX,"                                        let mut replies = message_replies.lock().unwrap();\n                                        match replies.get_mut(&reply_key) {\n                                            Some(ReplyEntry { value: slot @ None, .. }) => *slot = Some(value),\n                                            _ => (),\n                                        }\n"),
('keep','P32',S,RX,"                                        if let Some(entry) = message_replies.lock().unwrap().get_mut(&reply_key) {\n                                            entry.value.get_or_insert(value);\n                                        }\n"),
('keep','P32',S,"let reply_key = match msg.contains_key(\"requestId\") {\n"+IN+"\n                                        };","let reply_key = if msg.contains_key(\"requestId\") {\n                                            match (msg.remove(\"requestId\"), msg.remove(\"srcId\")) {\n                                                (Some(Json::String(request_id)), Some(Json::String(src_id))) => Some(InternReplyKey { src_id: src_id.into(), request_id: request_id.into() }),\n                                                _ => return,\n                                            }\n                                        } else { None };"),
]
