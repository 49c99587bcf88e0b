N = "use unicode_normalization::*;\n"
BUGS = [
 dict(id="c23-rc-buffer", property="C23",
  edits=[("src/lib.rs", "#[cfg(not(feature = \"std\"))]\nextern crate alloc;", "extern crate alloc;"),
   ("src/decompose.rs", "    buffer: TinyVec<[(u8, char); 4]>,", "    // Shared by clones until one of them changes it.\n    buffer: Rc<TinyVec<[(u8, char); 4]>>,"),
   ("src/decompose.rs", "use tinyvec::TinyVec;", "use alloc::rc::Rc;\nuse tinyvec::TinyVec;"),
   ("src/decompose.rs", "kind: self::DecompositionType::Canonical,\n            iter: iter.fuse(),\n            buffer: TinyVec::new(),", "kind: self::DecompositionType::Canonical,\n            iter: iter.fuse(),\n            buffer: Default::default(),"),
   ("src/decompose.rs", "kind: self::DecompositionType::Compatible,\n            iter: iter.fuse(),\n            buffer: TinyVec::new(),", "kind: self::DecompositionType::Compatible,\n            iter: iter.fuse(),\n            buffer: Default::default(),"),
   ("src/decompose.rs", "            self.buffer.push((class, ch));\n            self.ready", "            Rc::make_mut(&mut self.buffer).push((class, ch));\n            self.ready"),
   ("src/decompose.rs", "        } else {\n            self.buffer.push((class, ch));", "        } else {\n            Rc::make_mut(&mut self.buffer).push((class, ch));"),
   ("src/decompose.rs", "        self.buffer[self.ready.end..].sort_by_key(|k| k.0);", "        let from = self.ready.end;\n        if from < self.buffer.len() {\n            Rc::make_mut(&mut self.buffer)[from..].sort_by_key(|k| k.0);\n        }"),
   ("src/decompose.rs", "        for i in 0..pending {\n            self.buffer[i] = self.buffer[i + self.ready.end];\n        }\n        self.buffer.truncate(pending);", "        let buffer = Rc::make_mut(&mut self.buffer);\n        for i in 0..pending {\n            buffer[i] = buffer[i + self.ready.end];\n        }\n        buffer.truncate(pending);"),
  ],
  needs="an adapter that is to be used on another thread than the one it was made on",
  breaks="the adapters can no longer be sent to other threads",
  holds="an adapter is made on one thread and used on another",
  main=N + r'''
fn main() {
    let mut it = "e\u{316}\u{301}x\u{e9}".to_string().chars().collect::<Vec<_>>().into_iter().nfc();
    assert_eq!(it.next(), Some('\u{e9}'));
    let rest = std::thread::spawn(move || it.collect::<String>()).join().unwrap();
    assert_eq!(rest, "\u{316}x\u{e9}");
}
'''),
]
