L='cli.rs'
OK="                                Ok(x) => {\n                                    env = x;\n                                    *state.current_proj.lock().unwrap() = content;\n                                }\n                                Err(e) => tee_println!(Some(&mut state) => \"\\n>>> project load error: {e:?}\\n>>> keeping previous project...\\n\"),"
SP="                    state.proj_sender.lock().unwrap().send(ServerCommand::SetProject(content)).unwrap();\n"
SI="            state.proj_sender.lock().unwrap().send(ServerCommand::Input(input)).unwrap();\n"
UNK="                    _ => return HttpResponse::BadRequest().content_type(\"text/plain\").body(format!(\"unknown input: {input:?}\")),"
IN="                        env.mutate(|mc, env| env.proj.borrow_mut(mc).input(mc, input));\n                    }\n                }\n                Err(TryRecvError::D"
MUTS=[
('break','P34',L,OK,OK.replace("                                    *state.current_proj.lock().unwrap() = content;\n","").replace("Ok(x) => {","Ok(x) => {\n")),
('break','P34',L,"                            match get_env(&role, system.clone()) {\n"+OK,"                            *state.current_proj.lock().unwrap() = content;\n                            match get_env(&role, system.clone()) {\n"+OK.replace("                                    *state.current_proj.lock().unwrap() = content;\n","")),
('break','P34',L,OK,OK.replace("                                    env = x;\n","                                    let _ = x;\n")),
('break','P34',L,OK,OK.replace("Err(e) => tee_println!(Some(&mut state) => \"\\n>>> project load error: {e:?}\\n>>> keeping previous project...\\n\"),","Err(_) => (),")),
('break','P34',L,OK,OK.replace("                                Err(e) => tee","                                Err(e) => { env = get_env(&empty_role, system.clone()).unwrap(); tee").replace("project...\\n\"),","project...\\n\") }")),
('break','P34',L,"                            _ => tee_println!(weak_state.upgrade() => \"\\n>>> project load error: {e:?}\\n>>> keeping previous project...\\n\"),","                            _ => println!(\"{e:?}\"),"),
('break','P34',L,SP,"                    if !content.is_empty() { state.proj_sender.lock().unwrap().send(ServerCommand::SetProject(content)).unwrap(); }\n"),
('break','P34',L,SP,"                    *state.current_proj.lock().unwrap() = content.clone();\n"+SP),
('break','P34',L,"            match String::from_utf8(body.to_vec()) {\n                Ok(content) => {","            match Ok::<_, ()>(String::from_utf8_lossy(&body).into_owned()) {\n                Ok(content) => {") ,
('break','P34',L,"            match String::from_utf8(body.to_vec()) {\n                Ok(content) => {","            match Ok::<_, ()>(String::from_utf8(body.to_vec()).unwrap()) {\n                Ok(content) => {"),
('break','P34',L,UNK,"                    _ => Input::Stop,"),
('break','P34',L,"                    \"start\" => Input::Start,\n                    \"stop\" => Input::Stop,","                    \"start\" | \"resume\" => Input::Start,\n                    \"stop\" => Input::Stop,"),
('break','P34',L,SI,SI+"            if state.running.load(MemoryOrder::Relaxed) { let _ = state.proj_sender.lock().unwrap().send(ServerCommand::Input(Input::Stop)); }\n"),
('break','P34',L,"                            if let Some(state) = weak_state.upgrade() {\n                                state.running.store(true, MemoryOrder::Relaxed);\n                            }\n                        }\n                        env.mutate","                            if let Some(state) = weak_state.upgrade() {\n                                if !state.running.swap(true, MemoryOrder::Relaxed) { continue }\n                            }\n                        }\n                        env.mutate"),
('break','P34',L,"                .service(send_input)\n",""),
('break','P34',L,"current_proj: Mutex::new(EMPTY_PROJECT.into()),","current_proj: Mutex::new(Default::default()),"),
('break','P34',L,"            let errors = mem::take(&mut *state.errors.lock().unwrap());\n","            let errors = mem::take(&mut *state.errors.lock().unwrap()).into_iter().take(0).collect();\n"),
('break','P34',L,"            let proj = state.current_proj.lock().unwrap().clone();\n","            let proj = state.output.lock().unwrap().clone();\n"),
('break','P34',L,"match open_project(&content, None) {\n                        Ok((proj_name, role)) => {\n                            let mut state","match open_project(content.trim_end_matches('\\0'), None) {\n                        Ok((proj_name, _)) => {\n                            let role = empty_role.clone();\n                            let mut state"),
('keep','P34',L,OK,OK.replace("                                    env = x;\n                                    *state.current_proj.lock().unwrap() = content;\n","                                    *state.current_proj.lock().unwrap() = content;\n                                    env = x;\n")),
('keep','P34',L,OK,OK.replace("*state.current_proj.lock().unwrap() = content;","let mut current = state.current_proj.lock().unwrap();\n                                    *current = content;")),
('keep','P34',L,SP,"                    let cmd = ServerCommand::SetProject(content);\n                    let sender = state.proj_sender.lock().unwrap();\n                    sender.send(cmd).unwrap();\n"),
('keep','P34',L,"            let input = match String::from_utf8(input.to_vec()) {\n                Ok(input) => match input.as_str() {\n                    \"start\" => Input::Start,\n                    \"stop\" => Input::Stop,\n"+UNK+"\n                }\n                Err(_) => return HttpResponse::BadRequest().content_type(\"text/plain\").body(\"input was not valid utf8\")\n            };\n"+SI+"            HttpResponse::Ok().content_type(\"text/plain\").body(\"sent input\")","            let Ok(text) = String::from_utf8(input.to_vec()) else {\n                return HttpResponse::BadRequest().content_type(\"text/plain\").body(\"input was not valid utf8\");\n            };\n            let input = if text == \"start\" { Input::Start } else if text == \"stop\" { Input::Stop } else {\n                return HttpResponse::BadRequest().content_type(\"text/plain\").body(format!(\"unknown input: {text:?}\"));\n            };\n"+SI+"            HttpResponse::Ok().content_type(\"text/plain\").body(\"sent input\")"),
('keep','P34',L,"                            let mut state = weak_state.upgrade().unwrap();\n                            tee_println!(Some(&mut state) => \"\\n>>> loaded project '{proj_name}'\\n\");\n                            match get_env(&role, system.clone()) {\n"+OK+"\n                            }\n","                            let mut state = weak_state.upgrade().unwrap();\n                            tee_println!(Some(&mut state) => \"\\n>>> loaded project '{proj_name}'\\n\");\n                            let new_env = get_env(&role, system.clone());\n                            if let Err(e) = &new_env { tee_println!(Some(&mut state) => \"\\n>>> project load error: {e:?}\\n>>> keeping previous project...\\n\"); }\n                            if let Ok(x) = new_env {\n                                env = x;\n                                *state.current_proj.lock().unwrap() = content;\n                            }\n"),
]
