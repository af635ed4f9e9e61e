R='runtime.rs'; S='std_system.rs'; L='cli.rs'; M='main.rs'
PUB="                            key.complete(Ok(SimpleValue::Text(format_compact!(\"{}@{}#vm\", context_clone.project_name, context_clone.client_id)).into()));\n"
ERR="                                Err(err) => key.complete(Err(format_compact!(\"failed to convert RPC args to json: {err:?}\"))),"
SEND="Ok(args) => proc.global_context.borrow().system.rpc_request_pipe.send(RpcRequest { host, service, rpc, args, key }).unwrap(),"
SPAWN="                        key.complete(res.map(Into::into));\n"
TAKE="RawKeyCode::Enter => if let Some((_, res_key)) = input_queries.borrow_mut().pop_front() {\n                        res_key.complete(Ok(SimpleValue::Text(mem::take(&mut input_value)).into()));"
QP="                    input_queries.borrow_mut().push_back((format!(\"{entity:?} {prompt:?} > \"), key));\n"
FB="                        RequestStatus::Handled => RequestStatus::Handled,\n                        RequestStatus::UseDefault { key, request } => b(mc, key, request, proc),"
FC="                        CommandStatus::Handled => CommandStatus::Handled,\n                        CommandStatus::UseDefault { key, command } => b(mc, key, command, proc),"
MUTS = [
('break','P17',S,PUB,''),
('break','P17',S,PUB,PUB.replace('key.complete','key.clone().complete')+PUB),
('break','P17',S,ERR,"                                Err(_) => (),"),
('break','P17',S,SEND,SEND.replace('key })','key: key.clone() })').replace('.unwrap(),','.unwrap_or_else(|_| key.complete(Err("".into()))),').replace('Ok(args) => ','Ok(args) => { key.clone().complete(Err("".into())); ').replace('.unwrap_or_else(|_| key.complete(Err("".into()))),','.unwrap() }')),
('break','P17',S,SPAWN,"                        if let Ok(x) = res { key.complete(Ok(x.into())); }\n"),
('break','P17',S,SPAWN,"                        if rpc.is_empty() { return; }\n"+SPAWN) ,
('break','P17',S,"                while let Ok(RpcRequest { key, host, service, rpc, args }) = receiver.recv() {\n","                while let Ok(RpcRequest { key, host, service, rpc, args }) = receiver.recv() {\n                    if args.len() > 64 { continue }\n"),
('break','P17',L,TAKE,TAKE.replace("res_key.complete(Ok(SimpleValue::Text(mem::take(&mut input_value)).into()));","if !input_value.is_empty() { res_key.complete(Ok(SimpleValue::Text(mem::take(&mut input_value)).into())); }")),
('break','P17',L,"RawKeyCode::Esc => input_sequence.push(Input::Stop),","RawKeyCode::Esc => { input_queries.borrow_mut().clear(); input_sequence.push(Input::Stop) }"),
('break','P17',L,"RawKeyCode::Esc => input_sequence.push(Input::Stop),","RawKeyCode::Esc => { input_queries.borrow_mut().pop_front(); input_sequence.push(Input::Stop) }"),
('break','P17',L,QP,"                    if !input_queries.borrow().is_empty() { return RequestStatus::Handled }\n"+QP),
('break','P17',R,FB,FB.replace('b(mc, key','a(mc, key')),
('break','P17',R,FB,"                        RequestStatus::Handled => RequestStatus::Handled,\n                        x => x,"),
('break','P17',R,FC,"                        CommandStatus::Handled => CommandStatus::Handled,\n                        CommandStatus::UseDefault { key, command } => match b(mc, key, command, proc) { _ => CommandStatus::Handled },"),
('break','P17',R,"match (self.command.clone(), other.command.clone()) {","match (other.command.clone(), self.command.clone()) {"),
('break','P17',R,"                (Some(a), None) | (None, Some(a)) => Some(a),\n                (None, None) => None,\n            },\n            command","                (Some(a), None) => Some(a),\n                (None, _) => None,\n            },\n            command"),
('break','P17',R,"            Err(e) => key.complete(Err(format_compact!(\"{e:?}\"))),","            Err(_) => (),"),
('break','P17',R,"            Property::PenColor => key.complete(Err(\"attempt to apply relative change to a color\".into())),","            Property::PenColor => (),"),
('break','P17',S,"                    RequestStatus::UseDefault { key: _, request } => return Err(ErrorCause::NotSupported { feature: request.feature() }),","                    RequestStatus::UseDefault { key, request: _ } => key,"),
('break','P17',S,"match handler(mc, key.clone(), request, proc)","match handler(mc, AsyncKey::new(), request, proc)"),
('break','P17',S,"            AsyncResult::Completed(Err(x)) => AsyncResult::Completed(Err(x)),\n            AsyncResult::Pending => AsyncResult::Pending,","            AsyncResult::Completed(Err(_)) => AsyncResult::Consumed,\n            AsyncResult::Pending => AsyncResult::Pending,"),
('break','P17',M,"                                    key.complete(Err(format_compact!(\"syscall open - expected 2 string args, received {:?} and {:?}\", path.get_type(), mode.get_type())));\n",""),
('break','P17',M,"                                        key.complete(Err(\"syscall readLine - this file has been closed\".into()));\n",""),
('break','P17',M,"                                        if let Err(e) = x" if False else "                                            key.complete(Err(format_compact!(\"syscall readLine - read error: {e:?}\")));\n                                            return RequestStatus::Handled;","                                            key.clone().complete(Err(format_compact!(\"syscall readLine - read error: {e:?}\")));"),
('break','P17',L,"                if let Some(value) = value { println!(\"{entity:?} > {value:?}\") }\n                key.complete(Ok(()));","                if let Some(value) = value { println!(\"{entity:?} > {value:?}\"); key.complete(Ok(())); }"),
('break','P17',R,"            AsyncResult::Completed(_) | AsyncResult::Consumed => Err(value)," ,"            AsyncResult::Completed(_) => { *self = AsyncResult::Completed(value); Ok(()) }\n            AsyncResult::Consumed => Err(value),"),
('break','P17',L,[("    let config = overrides.fallback(&Config {\n        request: None,\n        command: Some(Rc::new(move |_, key, command, proc| match command {\n            Command::Print { style: _, value } => {\n                let entity = &*proc.get_call_stack().last().unwrap().entity.borrow();\n                if let Some(value) = value { println!","    let config = Config {\n        request: None,\n        command: Some(Rc::new(move |_: &Mutation, key: <StdSystem<C> as System<C>>::CommandKey, command, proc: &mut Process<C, StdSystem<C>>| match command {\n            Command::Print { style: _, value } => {\n                let entity = &*proc.get_call_stack().last().unwrap().entity.borrow();\n                if let Some(value) = value { println!"),("            _ => CommandStatus::UseDefault { key, command },\n        })),\n    });\n\n    let system = Rc::new(StdSystem::new_sync(server, Some(project_name), config, clock.clone()));\n    let mut idle_sleeper = IdleAction::new(YIELDS_BEFORE_IDLE_SLEEP, Box::new(|| thread::sleep(IDLE_SLEEP_TIME)));\n    println!(\">>>","            _ => CommandStatus::UseDefault { key, command },\n        })),\n    }.fallback(&overrides);\n\n    let system = Rc::new(StdSystem::new_sync(server, Some(project_name), config, clock.clone()));\n    let mut idle_sleeper = IdleAction::new(YIELDS_BEFORE_IDLE_SLEEP, Box::new(|| thread::sleep(IDLE_SLEEP_TIME)));\n    println!(\">>>")],None),
# keep
('keep','P17',S,PUB,"                            let id = format_compact!(\"{}@{}#vm\", context_clone.project_name, context_clone.client_id);\n                            key.complete(Ok(SimpleValue::Text(id).into()));\n"),
('keep','P17',S,SPAWN,"                        let res = match res { Ok(x) => Ok(x.into()), Err(e) => Err(e) };\n                        key.complete(res);\n"),
('keep','P17',S,SPAWN,"                        match res { Ok(x) => key.complete(Ok(x.into())), Err(e) => key.complete(Err(e)) }\n"),
('keep','P17',S,"                while let Ok(RpcRequest { key, host, service, rpc, args }) = receiver.recv() {\n","                loop {\n                    let RpcRequest { key, host, service, rpc, args } = match receiver.recv() { Ok(x) => x, Err(_) => break };\n"),
('keep','P17',L,TAKE,"RawKeyCode::Enter => if in_input_mode() {\n                        let (_, res_key) = input_queries.borrow_mut().pop_front().unwrap();\n                        let answer = mem::take(&mut input_value);\n                        res_key.complete(Ok(SimpleValue::Text(answer).into()));"),
('keep','P17',R,FB,"                        RequestStatus::UseDefault { key, request } => b(mc, key, request, proc),\n                        x => x,"),
('keep','P17',R,"match (self.command.clone(), other.command.clone()) {\n                (Some(a), Some(b))","match (other.command.clone(), self.command.clone()) {\n                (Some(b), Some(a))"),
('keep','P17',S,"        Ok(match self.config.request.as_ref() {\n            Some(handler) => {\n                let key = AsyncKey::new();\n                match handler(mc, key.clone(), request, proc) {\n                    RequestStatus::Handled => key,\n                    RequestStatus::UseDefault { key: _, request } => return Err(ErrorCause::NotSupported { feature: request.feature() }),\n                }\n            }\n            None => return Err(ErrorCause::NotSupported { feature: request.feature() }),\n        })","        let request = match &self.config.request {\n            Some(handler) => {\n                let key = AsyncKey::new();\n                match handler(mc, key.clone(), request, proc) {\n                    RequestStatus::Handled => return Ok(key),\n                    RequestStatus::UseDefault { key: _, request } => request,\n                }\n            }\n            None => request,\n        };\n        Err(ErrorCause::NotSupported { feature: request.feature() })"),
('keep','P17',L,"                if let Some(value) = value { println!(\"{entity:?} > {value:?}\") }\n                key.complete(Ok(()));\n                CommandStatus::Handled","                key.complete(match value { Some(value) => { println!(\"{entity:?} > {value:?}\"); Ok(()) } None => Ok(()) });\n                CommandStatus::Handled"),
]
