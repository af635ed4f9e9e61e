S='vecmap.rs'
G="            true => self.values.binary_search_by(|x| x.key.borrow().cmp(key)).ok().map(|i| &self.values[i].value),\n            false => self.values.iter().find(|x| x.key.borrow() == key).map(|x| &x.value),"
INS="            true => match self.values.binary_search_by(|x| x.key.cmp(&key)) {\n                Ok(i) => Some(core::mem::replace(&mut self.values[i].value, value)),\n                Err(i) => {\n                    self.values.insert(i, Entry { key, value });\n                    None\n                }\n            }"
UNS="            false => match self.get_mut(&key) {\n                Some(x) => Some(core::mem::replace(x, value)),\n                None => {\n                    self.values.push(Entry { key, value });\n                    None\n                }\n            }"
MUTS = [
('break','P30',S,G,G.replace('x.key.borrow().cmp(key)','key.cmp(x.key.borrow())')),
('break','P30',S,G,G.replace('x.key.borrow() == key','x.key.borrow() >= key')),
('break','P30',S,G,"            true => self.values.binary_search_by(|x| x.key.borrow().cmp(key)).ok().map(|i| &self.values[i].value),\n            false => self.values.binary_search_by(|x| x.key.borrow().cmp(key)).ok().map(|i| &self.values[i].value),"),
('break','P30',S,G,G.replace(".ok().map(|i| &self.values[i].value)",".map_or_else(|i| self.values.get(i), |i| self.values.get(i)).map(|x| &x.value)")),
('break','P30',S,INS,INS.replace('self.values.insert(i, Entry { key, value })','self.values.push(Entry { key, value })')),
('break','P30',S,INS,INS.replace('self.values.insert(i, Entry','self.values.insert(i.saturating_sub(1), Entry')),
('break','P30',S,INS,INS.replace('Ok(i) => Some(core::mem::replace(&mut self.values[i].value, value)),','Ok(i) => { self.values.insert(i, Entry { key, value }); None }')),
('break','P30',S,INS,INS.replace('Ok(i) => Some(core::mem::replace(&mut self.values[i].value, value)),','Ok(i) => { self.values[i] = Entry { key, value }; None }')),
('break','P30',S,UNS,"            false => { self.values.push(Entry { key, value }); None }"),
('break','P30',S,UNS,UNS.replace('Some(x) => Some(core::mem::replace(x, value)),','Some(x) => { let _ = &x; None }')),
('break','P30',S,"            res.insert(k, v);","            res.values.push(Entry { key: k, value: v });"),
('break','P30',S,"    type Item = (&'a K, &'a mut V);\n    fn next(&mut self) -> Option<Self::Item> {\n        self.0.next().map(|x| (&x.key, &mut x.value))","    type Item = (&'a mut K, &'a mut V);\n    fn next(&mut self) -> Option<Self::Item> {\n        self.0.next().map(|x| (&mut x.key, &mut x.value))"),
('break','P30',S,"    pub fn as_slice(&self) -> &[Entry<K, V>] {\n        self.values.as_slice()","    pub fn as_slice(&mut self) -> &mut [Entry<K, V>] {\n        self.values.as_mut_slice()") if False else ('break','P30',S,"    /// Gets a raw slice","    /// x\n    pub fn as_mut_slice(&mut self) -> &mut [Entry<K, V>] { self.values.as_mut_slice() }\n    /// Gets a raw slice"),
('break','P30',S,"    values: Vec<Entry<K, V>>,","    pub values: Vec<Entry<K, V>>,"),
('break','P30',S,"    /// Gets a raw slice","    /// x\n    pub fn remove(&mut self, key: &K) -> Option<V> { let i = self.values.iter().position(|x| &x.key == key)?; Some(self.values.swap_remove(i).value) }\n    /// Gets a raw slice"),
('keep','P30',S,"    /// Gets a raw slice","    /// x\n    pub fn remove(&mut self, key: &K) -> Option<V> { let i = self.values.iter().position(|x| &x.key == key)?; Some(self.values.remove(i).value) }\n    /// Gets a raw slice"),
('break','P30',S,"        Iter(self.values.iter())","        Iter(self.values[1..].iter())"),
('keep','P30',S,G,"            true => match self.values.binary_search_by(|x| x.key.borrow().cmp(key)) {\n                Ok(i) => Some(&self.values[i].value),\n                Err(_) => None,\n            },\n            false => {\n                for x in self.values.iter() {\n                    if x.key.borrow() == key { return Some(&x.value); }\n                }\n                None\n            }"),
('keep','P30',S,G,"            true => self.values.binary_search_by_key(&key, |x| x.key.borrow()).ok().and_then(|i| self.values.get(i)).map(|x| &x.value),\n            false => self.values.iter().find_map(|x| if x.key.borrow() == key { Some(&x.value) } else { None }),") if False else ('keep','P30',S,G,"            true => self.find(key).ok().map(|i| &self.values[i].value),\n            false => self.values.iter().position(|x| key == x.key.borrow()).map(|i| &self.values[i].value),"),
('keep','P30',S,UNS,"            false => {\n                if let Some(x) = self.values.iter_mut().find(|x| x.key == key) {\n                    return Some(core::mem::replace(&mut x.value, value));\n                }\n                self.values.push(Entry { key, value });\n                None\n            }"),
('keep','P30',S,INS,INS.replace('Ok(i) => Some(core::mem::replace(&mut self.values[i].value, value)),','Ok(i) => { let e = &mut self.values[i]; Some(core::mem::replace(&mut e.value, value)) }')),
('keep','P30',S,"        for (k, v) in iter {\n            res.insert(k, v);\n        }","        iter.into_iter().for_each(|(k, v)| { res.insert(k, v); });"),
('keep','P30',S,"        self.values.is_empty()","        self.values.len() == 0"),
]
H="    /// Gets an immutable reference to a stored value, if it exists."
MUTS = [(k,pid,f,[(o,nw),(H,"    fn find<Q: ?Sized + Ord>(&self, key: &Q) -> Result<usize, usize> where K: Borrow<Q> { self.values.binary_search_by(|x| x.key.borrow().cmp(key)) }\n"+H)],None) if 'self.find(key)' in nw else (k,pid,f,o,nw) for k,pid,f,o,nw in MUTS]
