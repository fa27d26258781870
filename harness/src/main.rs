//! Parses documents with the real parser and dumps what came out, for the TLA+ conformance checks.
//!
//! Input file: for each document a little-endian u32 length and that many bytes of UTF-8.
//! Output: one JSON line per document, in input order:
//! `{"i":N,"st":"ok","tree":[[kind,parent,start,text|null]..],"errors":[[s,e]..]}`
//! (with the feature `views` also `"views":..`, see views.rs)
//! or `{"i":N,"st":"panic","msg":".."}` or `{"i":N,"st":"hang"}`.

use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, WalkEvent};
use std::fmt::Write as _;
use std::io::{Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[cfg(feature = "views")]
mod views;

fn string(s: &str) -> String {
    let mut out = String::with_capacity(s.len() + 2);
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(out, "\\u{:04x}", c as u32).unwrap(),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn dump(i: usize, doc: &str) -> String {
    let parse = ludtwig_parser::parse(doc);
    let errors: Vec<String> = parse
        .errors
        .iter()
        .map(|e| {
            // the message must be producible for every error
            let _ = e.to_string();
            let found = e.found.map_or(String::new(), |k| format!("{k:?}"));
            format!("[{},{},\"{found}\"]", u32::from(e.range.start()), u32::from(e.range.end()))
        })
        .collect();
    let root = SyntaxNode::new_root(parse.green_node);
    let mut stack: Vec<usize> = vec![];
    let mut count = 0;
    let mut out = vec![];
    #[cfg(feature = "views")]
    let mut ids = std::collections::HashMap::new();
    for event in root.preorder_with_tokens() {
        match event {
            WalkEvent::Enter(element) => {
                count += 1;
                #[cfg(feature = "views")]
                ids.insert(views::place(&element), count);
                out.push(format!(
                    "[\"{:?}\",{},{},{}]",
                    element.kind(),
                    stack.last().copied().unwrap_or(0),
                    u32::from(element.text_range().start()),
                    match &element {
                        SyntaxElement::Node(_) => "null".to_string(),
                        SyntaxElement::Token(t) => string(t.text()),
                    }
                ));
                stack.push(count);
            }
            WalkEvent::Leave(_) => {
                stack.pop();
            }
        }
    }
    #[cfg(feature = "views")]
    let views = format!(",\"views\":{}", views::views(&root, &ids));
    #[cfg(not(feature = "views"))]
    let views = "";
    format!(
        "{{\"i\":{i},\"st\":\"ok\",\"tree\":[{}],\"errors\":[{}]{views}}}",
        out.join(","),
        errors.join(",")
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut bytes = vec![];
    std::fs::File::open(&args[1]).unwrap().read_to_end(&mut bytes).unwrap();
    let mut docs = vec![];
    let mut pos = 0;
    while pos < bytes.len() {
        let len = u32::from_le_bytes(bytes[pos..pos + 4].try_into().unwrap()) as usize;
        docs.push(String::from_utf8(bytes[pos + 4..pos + 4 + len].to_vec()).unwrap());
        pos += 4 + len;
    }
    let limit = Duration::from_secs(
        std::env::var("VHARNESS_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(20),
    );
    std::panic::set_hook(Box::new(|_| {}));
    let n = docs.len();
    let docs = Arc::new(docs);
    let out: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; n]));
    let next = Arc::new(AtomicUsize::new(0));
    // what each worker is busy with since when
    let busy: Arc<Mutex<Vec<Option<(usize, Instant)>>>> = Arc::new(Mutex::new(vec![]));
    let spawn = |slot: usize| {
        let (docs, out, next, busy) = (docs.clone(), out.clone(), next.clone(), busy.clone());
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= docs.len() {
                    busy.lock().unwrap()[slot] = None;
                    return;
                }
                busy.lock().unwrap()[slot] = Some((i, Instant::now()));
                let line = std::panic::catch_unwind(|| dump(i, &docs[i])).unwrap_or_else(|e| {
                    let msg = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()))
                        .unwrap_or_default();
                    format!("{{\"i\":{i},\"st\":\"panic\",\"msg\":{}}}", string(&msg))
                });
                let mut out = out.lock().unwrap();
                if out[i].is_none() {
                    out[i] = Some(line);
                }
            })
            .unwrap();
    };
    for slot in 0..8 {
        busy.lock().unwrap().push(None);
        spawn(slot);
    }
    loop {
        std::thread::sleep(Duration::from_millis(5));
        if out.lock().unwrap().iter().all(Option::is_some) {
            break;
        }
        let mut hung = vec![];
        {
            let mut busy = busy.lock().unwrap();
            for b in busy.iter_mut() {
                if let Some((i, since)) = *b {
                    if since.elapsed() > limit {
                        hung.push(i);
                        *b = None;
                    }
                }
            }
        }
        for i in hung {
            let mut out = out.lock().unwrap();
            if out[i].is_none() {
                out[i] = Some(format!("{{\"i\":{i},\"st\":\"hang\"}}"));
                drop(out);
                // replace the lost worker
                busy.lock().unwrap().push(None);
                let slot = busy.lock().unwrap().len() - 1;
                spawn(slot);
            }
        }
    }
    let mut file = std::io::BufWriter::new(std::fs::File::create(&args[2]).unwrap());
    for line in out.lock().unwrap().iter() {
        writeln!(file, "{}", line.as_ref().unwrap()).unwrap();
    }
    file.flush().unwrap();
    std::process::exit(0);
}
