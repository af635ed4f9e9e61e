B='bytecode.rs'
MUTS = [
# --- P02: balance
('break','P02',B,"                self.ins.push(InternalInstruction::Illegal);\n                self.ins.push(Instruction::PopValue.into());\n\n                self.call_holes.push","                self.ins.push(InternalInstruction::Illegal);\n\n                self.call_holes.push"),
('break','P02',B,"self.ins.push(Instruction::Clone.into());\n                self.ins.push(Instruction::PopValue.into());","self.ins.push(Instruction::Clone.into());"),
('break','P02',B,"                for _ in 0..3 {\n                    self.ins.push(Instruction::PopValue.into());","                for _ in 0..2 {\n                    self.ins.push(Instruction::PopValue.into());"),
('break','P02',B,"self.ins[skip_append_pos] = Instruction::ConditionalJump { to: pop_cont, when: false }","self.ins[skip_append_pos] = Instruction::ConditionalJump { to: cont, when: false }"),
('break','P02',B,"self.ins[kept_jump_pos] = Instruction::Jump { to: cont }","self.ins[kept_jump_pos] = Instruction::Jump { to: pop_cont }"),
('break','P02',B,"self.ins[first_check_pos] = Instruction::ListPopFirstOrElse { goto: empty_list }","self.ins[first_check_pos] = Instruction::ListPopFirstOrElse { goto: clean_inner }"),
('break','P02',B,"self.ins[loop_done_pos] = Instruction::ListPopFirstOrElse { goto: clean_inner }","self.ins[loop_done_pos] = Instruction::ListPopFirstOrElse { goto: ret }"),
('break','P02',B,"self.ins[skip_jump_pos] = Instruction::ConditionalJump { to: ret, when: true }","self.ins[skip_jump_pos] = Instruction::ConditionalJump { to: aft_loop, when: true }"),
('break','P02',B,"                VariadicLen::Fixed(values.len())\n            }\n            _ =>","                VariadicLen::Fixed(values.len() + 1)\n            }\n            _ =>"),
('break','P02',B,"self.ins.push(Instruction::CallClosure { new_entity: new_entity.is_some(), args: args.len() }.into());\n            }\n            ast::ExprKind::CallRpc","self.ins.push(Instruction::CallClosure { new_entity: false, args: args.len() }.into());\n            }\n            ast::ExprKind::CallRpc"),
('break','P02',B,"None => self.append_simple_ins(entity, &[msg_type], Instruction::SendLocalMessage { wait: *wait, target: false })?","None => self.append_simple_ins(entity, &[msg_type], Instruction::SendLocalMessage { wait: *wait, target: *wait })?"),
('break','P02',B,"                self.ins.push(Instruction::PopHandler.into());\n                let success_end_pos","                let success_end_pos"),
('break','P02',B,"let error_handler_pos = self.ins.len();\n                self.ins.push(Instruction::PopHandler.into());","self.ins.push(Instruction::PopHandler.into());\n                let error_handler_pos = self.ins.len();"),
('break','P02',B,"self.ins.push(Instruction::WarpStop.into());","if stmts.len() > 1 { self.ins.push(Instruction::WarpStop.into()); }"),
('break','P08',B,"self.ins[aft_jump_pos] = Instruction::ConditionalJump { to: aft, when: false }","self.ins[aft_jump_pos] = Instruction::ConditionalJump { to: top, when: false }"),
('break','P02',B,"                tokens.push(msg_type);\n                for (field, value) in values {\n                    self.append_expr(value, entity)?;\n                    tokens.push(field);\n                }\n                self.append_expr(target, entity)?;\n                self.ins.push(Instruction::SendNetworkMessage { tokens: self.string_arena.alloc(tokens.finish()), expect_reply: false }","                tokens.push(msg_type);\n                for (field, value) in values {\n                    self.append_expr(value, entity)?;\n                    if !field.is_empty() { tokens.push(field); }\n                }\n                self.append_expr(target, entity)?;\n                self.ins.push(Instruction::SendNetworkMessage { tokens: self.string_arena.alloc(tokens.finish()), expect_reply: false }"),
('break','P02',B,"self.ins.push(Instruction::DupeValue { top_index: 3 }.into());\n                self.ins.push(Instruction::from(BinaryOp::Add).into());","self.ins.push(Instruction::from(BinaryOp::Add).into());"),
('break','P02',B,"self.ins[check_pos] = Instruction::ConditionalJump { to: aft, when: true }.into();\n\n                self.ins.push(Instruction::ToBool.into());","self.ins[check_pos] = Instruction::ConditionalJump { to: check_pos, when: true }.into();\n\n                self.ins.push(Instruction::ToBool.into());"),
('break','P02',B,"self.ins[*hole_pos] = Instruction::Call { pos,","self.ins[*hole_pos] = Instruction::Call { pos: *hole_pos,"),
('keep','P02',B,"                for _ in 0..3 {\n                    self.ins.push(Instruction::PopValue.into());\n                }","                self.ins.push(Instruction::PopValue.into());\n                self.ins.push(Instruction::PopValue.into());\n                self.ins.push(Instruction::PopValue.into());"),
('keep','P02',B,"                for _ in 0..3 {\n                    self.ins.push(Instruction::PopValue.into());\n                }","                let mut left = 3;\n                while left != 0 {\n                    self.ins.push(Instruction::PopValue.into());\n                    left -= 1;\n                }"),
('keep','P02',B,"                self.ins.push(Instruction::WarpStart.into());\n                for stmt in stmts {\n                    self.append_stmt(stmt, entity)?;\n                }","                self.ins.push(Instruction::WarpStart.into());\n                stmts.iter().try_for_each(|stmt| self.append_stmt(stmt, entity))?;"),
('keep','P02',B,"            ast::StmtKind::InfLoop { stmts } => {\n                let top = self.ins.len();\n                for stmt in stmts {\n                    self.append_stmt(stmt, entity)?;\n                }","            ast::StmtKind::InfLoop { stmts } => {\n                let top = self.ins.len();\n                for i in 0..stmts.len() {\n                    self.append_stmt(&stmts[i], entity)?;\n                }"),
('keep','P02',B,[("    fn append_variadic_op(&mut self","    fn reserve(&mut self) -> usize {\n        let pos = self.ins.len();\n        self.ins.push(InternalInstruction::Illegal);\n        pos\n    }\n    fn fill(&mut self, pos: usize, ins: Instruction<'b>) {\n        debug_assert!(matches!(self.ins[pos], InternalInstruction::Illegal));\n        self.ins[pos] = ins.into();\n    }\n    fn append_variadic_op(&mut self"),("                let patch_pos = self.ins.len();\n                self.ins.push(InternalInstruction::Illegal);","                let patch_pos = self.reserve();"),("self.ins[patch_pos] = Instruction::ConditionalJump { to: else_pos, when: false }.into();","self.fill(patch_pos, Instruction::ConditionalJump { to: else_pos, when: false });")],None),
('keep','P02',B,[("    fn append_variadic_op(&mut self","    fn append_stmts(&mut self, stmts: &'a [ast::Stmt], entity: Option<&'a ast::Entity>) -> Result<(), CompileError<'a>> {\n        for stmt in stmts {\n            self.append_stmt(stmt, entity)?;\n        }\n        Ok(())\n    }\n    fn append_variadic_op(&mut self"),("                for stmt in code {\n                    self.append_stmt(stmt, entity)?;\n                }","                self.append_stmts(code, entity)?;"),("                for stmt in handler {\n                    self.append_stmt(stmt, entity)?;\n                }","                self.append_stmts(handler, entity)?;")],None),
('keep','P02',B,"self.ins.push(Instruction::SwapValues { top_index_1: 1, top_index_2: 3 }.into());\n                self.ins.push(Instruction::PopValue.into());\n                self.ins.push(Instruction::PopValue.into());\n                self.ins.push(Instruction::PopValue.into());","for ins in [Instruction::SwapValues { top_index_1: 1, top_index_2: 3 }, Instruction::PopValue, Instruction::PopValue, Instruction::PopValue] {\n                    self.ins.push(ins.into());\n                }"),
#('keep','P02',B,"                    for arg in args {\n                        self.append_expr(arg, entity)?;\n                    }\n                    self.ins.push(Instruction::UnknownBlock { name, args: args.len() }.into());\n                    self.ins.push(Instruction::PopValue.into());","                    let mut count = 0;\n                    for arg in args {\n                        self.append_expr(arg, entity)?;\n                        count += 1;\n                    }\n                    self.ins.push(Instruction::UnknownBlock { name, args: count }.into());\n                    self.ins.push(Instruction::PopValue.into());"),
('keep','P02',B,"new_entity: new_entity.is_some(), args: args.len() }.into());\n            }\n            ast::ExprKind::CallRpc","new_entity: matches!(new_entity, Some(_)), args: args.len() }.into());\n            }\n            ast::ExprKind::CallRpc"),
# --- P07
('break','P07',B,"                self.append_expr(condition, entity)?;\n                let jump_pos = self.ins.len();\n                self.ins.push(InternalInstruction::Illegal);\n                self.ins.push(Instruction::Yield.into());","                self.append_expr(condition, entity)?;\n                let jump_pos = self.ins.len();\n                self.ins.push(InternalInstruction::Illegal);"),
('break','P07',B,"                    self.append_stmt(stmt, entity)?;\n                }\n                self.ins.push(Instruction::Yield.into());\n                self.ins.push(Instruction::Jump { to: top }.into());\n            }","                    self.append_stmt(stmt, entity)?;\n                }\n                if stmts.is_empty() { self.ins.push(Instruction::Yield.into()); }\n                self.ins.push(Instruction::Jump { to: top }.into());\n            }"),
('break','P07',B,"let pop_cont = self.ins.len();\n                self.ins.push(Instruction::PopValue.into());\n                let cont = self.ins.len();\n                self.ins.push(Instruction::Yield.into());\n                self.ins.push(Instruction::Jump { to: top }.into());","let cont = self.ins.len();\n                self.ins.push(Instruction::Yield.into());\n                self.ins.push(Instruction::Jump { to: top }.into());\n                let pop_cont = self.ins.len();\n                self.ins.push(Instruction::PopValue.into());\n                self.ins.push(Instruction::Jump { to: top }.into());"),
('break','P07',B,"self.ins.push(Instruction::CallClosure { new_entity: false, args: 2 }.into());\n                self.ins.push(Instruction::Yield.into());\n                self.ins.push(Instruction::Jump { to: top }.into());","self.ins.push(Instruction::CallClosure { new_entity: false, args: 2 }.into());\n                self.ins.push(Instruction::Jump { to: top }.into());"),
('break','P07',B,"self.ins.push(Instruction::PopValue.into());\n                self.ins.push(Instruction::Yield.into());\n                self.ins.push(Instruction::Jump { to: top }.into());\n                let aft = self.ins.len();\n\n                self.ins[exit_jump_pos] = Instruction::ConditionalJump { to: aft, when: true }.into();\n\n                for","self.ins.push(Instruction::PopValue.into());\n                self.ins.push(Instruction::WarpStart.into());\n                self.ins.push(Instruction::Yield.into());\n                self.ins.push(Instruction::WarpStop.into());\n                self.ins.push(Instruction::Jump { to: top }.into());\n                let aft = self.ins.len();\n\n                self.ins[exit_jump_pos] = Instruction::ConditionalJump { to: aft, when: true }.into();\n\n                for"),
('break','P07','process.rs',"if self.warp_counter == 0 { return Ok(ProcessStep::Yield) }","if self.warp_counter <= 1 { return Ok(ProcessStep::Yield) }"),
('break','P07','process.rs',"if self.warp_counter == 0 { return Ok(ProcessStep::Yield) }","if self.warp_counter == 0 && self.value_stack.len() < 64 { return Ok(ProcessStep::Yield) }"),
('break','P07','process.rs',"if self.warp_counter == 0 { return Ok(ProcessStep::Yield) }","if self.warp_counter != 1 { return Ok(ProcessStep::Yield) }"),
('break','P07','process.rs',"self.warp_counter += 1;","self.warp_counter = 1;"),
('break','P07','process.rs',"self.warp_counter -= 1;","self.warp_counter = 0;"),
('break','P07','process.rs',"                    self.defer = Some(Defer::Sleep { until, aft_pos });\n                    return Ok(ProcessStep::Yield);","                    self.defer = Some(Defer::Sleep { until, aft_pos });\n                    return Ok(if self.warp_counter == 0 { ProcessStep::Yield } else { ProcessStep::Normal });"),
('break','P07','project.rs',"self.state.process_queue.push_back(proc_key);\n                    ProjectStep::Yield","self.state.process_queue.push_front(proc_key);\n                    ProjectStep::Yield"),
('break','P07','project.rs',"self.state.process_queue.push_back(proc_key);\n                    ProjectStep::Yield","if self.state.process_queue.len() > 8 { self.state.process_queue.push_front(proc_key); } else { self.state.process_queue.push_back(proc_key); }\n                    ProjectStep::Yield"),
('keep','P07','process.rs',"                self.pos = aft_pos;\n                if self.warp_counter == 0 { return Ok(ProcessStep::Yield) }","                self.pos = aft_pos;\n                match self.warp_counter {\n                    0 => return Ok(ProcessStep::Yield),\n                    _ => (),\n                }"),
('keep','P07','process.rs',"                self.pos = aft_pos;\n                if self.warp_counter == 0 { return Ok(ProcessStep::Yield) }","                let warped = self.warp_counter > 0;\n                self.pos = aft_pos;\n                if !warped { return Ok(ProcessStep::Yield) }"),
('keep','P07',B,[("    fn append_variadic_op(&mut self","    fn loop_back(&mut self, top: usize) {\n        self.ins.push(Instruction::Yield.into());\n        self.ins.push(Instruction::Jump { to: top }.into());\n    }\n    fn append_variadic_op(&mut self"),("                    self.append_stmt(stmt, entity)?;\n                }\n                self.ins.push(Instruction::Yield.into());\n                self.ins.push(Instruction::Jump { to: top }.into());\n            }","                    self.append_stmt(stmt, entity)?;\n                }\n                self.loop_back(top);\n            }")],None),
('keep','P07 P02',B,"                let top = self.ins.len();\n                for stmt in stmts {\n                    self.append_stmt(stmt, entity)?;\n                }\n                self.ins.push(Instruction::Yield.into());\n                self.ins.push(Instruction::Jump { to: top }.into());\n            }","                let top = self.ins.len();\n                self.ins.push(Instruction::Yield.into());\n                for stmt in stmts {\n                    self.append_stmt(stmt, entity)?;\n                }\n                self.ins.push(Instruction::Jump { to: top }.into());\n            }"),
]
