S='slotmap.rs'
MUTS = [
('break','P29',S,[("            slot.generation += 1;\n            self.num_values -= 1;\n            self.empty_slots.push(key.get_slot());","            self.num_values -= 1;\n            self.empty_slots.push(key.get_slot());")],None),
('break','P29',S,[("                slot.generation += 1;\n                self.empty_slots.push(i);","                self.empty_slots.push(i);")],None),
('break','P29',S,[("                    slot.value = None;\n                    slot.generation += 1;","                    slot.value = None;")],None),
('break','P29',S,"                self.empty_slots.push(i);\n            }\n        }\n        self.num_values = 0;","            }\n            self.empty_slots.push(i);\n        }\n        self.num_values = 0;"),
('break','P29',S,"        if slot.generation == key.get_generation() { slot.value.as_ref() } else { None }","        if slot.generation >= key.get_generation() { slot.value.as_ref() } else { None }"),
('break','P29',S,"        if slot.generation == key.get_generation() { slot.value.as_mut() } else { None }","        slot.value.as_mut()"),
('break','P29',S,"let res = if slot.generation == key.get_generation() { slot.value.take() } else { None };","let res = slot.value.take();"),
('break','P29',S,"        let res = if slot.generation == key.get_generation() { slot.value.take() } else { None };\n        if res.is_some() {","        let res = if slot.generation == key.get_generation() { slot.value.take() } else { None };\n        {"),
('break','P29',S,"                K::new(slot, self.slots[slot].generation)","                self.slots[slot].generation = 0;\n                K::new(slot, self.slots[slot].generation)"),
('break','P29',S,"                K::new(slot, self.slots[slot].generation)","                K::new(slot, 0)"),
('break','P29',S,"                K::new(slot, 0)\n","                K::new(slot, self.slots.len())\n"),
('break','P29',S,"        for (i, slot) in self.slots.iter_mut().enumerate() {\n            if slot.value.take().is_some() {\n                slot.generation += 1;\n                self.empty_slots.push(i);\n            }\n        }\n        self.num_values = 0;","        self.slots.clear();\n        self.empty_slots.clear();\n        self.num_values = 0;"),
('break','P29',S,"                    self.num_values -= 1;\n                    self.empty_slots.push(i);","                    self.empty_slots.push(i);"),
('break','P29',S,"if !f(K::new(i, slot.generation), value) {","if f(K::new(i, slot.generation), value) {"),
('break','P29',S,"if !f(K::new(i, slot.generation), value) {","if !f(K::new(i, slot.generation + 1), value) {"),
('break','P29',S,"            if let Some(x) = slot.value.as_ref() { return Some((K::new(i, slot.generation), x)) }","            if let Some(x) = slot.value.as_ref() { return Some((K::new(i, 0), x)) }"),
('break','P29',S,"            fn get_generation(&self) -> usize { self.1 }","            fn get_generation(&self) -> usize { self.0 }"),
('break','P29',S,"        self.num_values\n    }","        self.slots.len()\n    }"),
('break','P29',S,"        self.num_values += 1;\n","        if self.empty_slots.is_empty() { self.num_values += 1; }\n"),
('keep','P29',S,"        self.len() == 0","        !(self.len() > 0)"),
('keep','P29',S,"        let slot = self.slots.get(key.get_slot())?;\n        if slot.generation == key.get_generation() { slot.value.as_ref() } else { None }","        self.slots.get(key.get_slot()).filter(|s| s.generation == key.get_generation()).and_then(|s| s.value.as_ref())"),
('keep','P29',S,"        let slot = self.slots.get(key.get_slot())?;\n        if slot.generation == key.get_generation() { slot.value.as_ref() } else { None }","        match self.slots.get(key.get_slot()) {\n            Some(s) if key.get_generation() == s.generation => s.value.as_ref(),\n            _ => None,\n        }"),
('keep','P29',S,"        for (i, slot) in self.slots.iter_mut().enumerate() {\n            if slot.value.take().is_some() {\n                slot.generation += 1;\n                self.empty_slots.push(i);\n            }\n        }\n        self.num_values = 0;","        self.retain_mut(|_, _| false);"),
('keep','P29',S,"        for (i, slot) in self.slots.iter_mut().enumerate() {\n            if slot.value.take().is_some() {\n                slot.generation += 1;\n                self.empty_slots.push(i);\n            }\n        }\n        self.num_values = 0;","        for i in 0..self.slots.len() {\n            let slot = &mut self.slots[i];\n            if slot.value.is_some() {\n                self.empty_slots.push(i);\n                slot.generation += 1;\n                slot.value = None;\n                self.num_values -= 1;\n            }\n        }"),
('keep','P29',S,"        let slot = self.slots.get_mut(key.get_slot())?;\n        let res = if slot.generation == key.get_generation() { slot.value.take() } else { None };\n        if res.is_some() {\n            slot.generation += 1;\n            self.num_values -= 1;\n            self.empty_slots.push(key.get_slot());\n        }","        let i = key.get_slot();\n        let slot = self.slots.get_mut(i)?;\n        if slot.generation != key.get_generation() { return None; }\n        let res = slot.value.take()?;\n        slot.generation += 1;\n        self.num_values -= 1;\n        self.empty_slots.push(i);\n        let res = Some(res);"),
('keep','P29',S,"        let key = match self.empty_slots.pop() {\n            Some(slot) => {\n                debug_assert!(self.slots[slot].value.is_none());\n                self.slots[slot].value = Some(value);\n                K::new(slot, self.slots[slot].generation)\n            }","        let key = match self.empty_slots.pop() {\n            Some(i) => {\n                let slot = &mut self.slots[i];\n                debug_assert!(slot.value.is_none());\n                slot.value = Some(value);\n                K::new(i, slot.generation)\n            }"),
('keep','P29',S,"                let slot = self.slots.len();\n                self.slots.push(Slot { value: Some(value), generation: 0 });\n                K::new(slot, 0)","                self.slots.push(Slot { value: Some(value), generation: 0 });\n                K::new(self.slots.len() - 1, 0)"),
('keep','P29',S,"        loop {\n            let (i, slot) = self.0.next()?;\n            if let Some(x) = slot.value.as_ref() { return Some((K::new(i, slot.generation), x)) }\n        }","        while let Some((i, slot)) = self.0.next() {\n            match slot.value.as_ref() {\n                Some(x) => return Some((K::new(i, slot.generation), x)),\n                None => continue,\n            }\n        }\n        None"),
('keep','P29',S,"        loop {\n            let (i, slot) = self.0.next()?;\n            if let Some(x) = slot.value.as_ref() { return Some((K::new(i, slot.generation), x)) }\n        }","        self.0.find_map(|(i, slot)| slot.value.as_ref().map(|x| (K::new(i, slot.generation), x)))"),
('keep','P29',S,"            if let Some(value) = &mut slot.value {\n                if !f(K::new(i, slot.generation), value) {","            let key = K::new(i, slot.generation);\n            if let Some(value) = slot.value.as_mut() {\n                let keep = f(key, value);\n                if !keep {"),
]
