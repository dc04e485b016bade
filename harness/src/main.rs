//! Conformance harness: drives the real twiggy crates from a line protocol on
//! stdin and reports what it observed as one JSON document per line on stdout.
//! It contains no expectations; those live in the TLA+ specification.
//!
//! Tokens are separated by single spaces; strings are hex encoded with a
//! leading `x`. A panic in the code under test is data: `{"panic":"..."}`.

use std::collections::HashMap;
use std::io::{self, BufRead, Write};
use std::panic::{self, AssertUnwindSafe};
use structopt::StructOpt;
use twiggy_analyze as analyze;
use twiggy_ir as ir;
use twiggy_opt as opt;
use twiggy_parser as parser;
use twiggy_traits as traits;

type Res = Result<String, String>;

fn unhex(tok: &str) -> Vec<u8> {
    let t = tok.as_bytes();
    assert_eq!(t.first(), Some(&b'x'), "harness: expected hex token");
    t[1..]
        .chunks(2)
        .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap())
        .collect()
}

fn unhex_str(tok: &str) -> String {
    String::from_utf8(unhex(tok)).unwrap()
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn id_json(id: ir::Id) -> String {
    let s = id.serializable();
    format!("[{},{}]", s >> 32, s & 0xffff_ffff)
}

fn parse_id(a: &str, b: &str) -> ir::Id {
    let sec: usize = a.parse().unwrap();
    if b == "s" {
        ir::Id::section(sec)
    } else {
        ir::Id::entry(sec, b.parse().unwrap())
    }
}

fn kind_name(k: &ir::ItemKind) -> &'static str {
    match k {
        ir::ItemKind::Code(_) => "code",
        ir::ItemKind::Data(_) => "data",
        ir::ItemKind::Debug(_) => "debug",
        ir::ItemKind::Misc(_) => "misc",
    }
}

#[derive(Default)]
struct World {
    builders: HashMap<String, ir::ItemsBuilder>,
    items: HashMap<String, ir::Items>,
    tops: HashMap<String, opt::Top>,
    doms: HashMap<String, opt::Dominators>,
    paths: HashMap<String, opt::Paths>,
    monos: HashMap<String, opt::Monos>,
    diffs: HashMap<String, opt::Diff>,
    garbage: HashMap<String, opt::Garbage>,
}

fn dump(items: &ir::Items) -> String {
    let mut o = format!("{{\"size\":{},\"items\":[", items.size());
    let ids: Vec<ir::Id> = items.iter().map(|i| i.id()).collect();
    for (n, it) in items.iter().enumerate() {
        if n > 0 {
            o.push(',');
        }
        o.push_str(&format!(
            "[{},{},{},{},{}]",
            id_json(it.id()),
            js(kind_name(it.kind())),
            it.size(),
            js(it.name()),
            it.monomorphization_of()
                .map(js)
                .unwrap_or_else(|| "null".into())
        ));
    }
    o.push_str("],\"edges\":[");
    for (n, id) in ids.iter().enumerate() {
        if n > 0 {
            o.push(',');
        }
        let v: Vec<String> = items.neighbors(*id).map(id_json).collect();
        o.push_str(&format!("[{}]", v.join(",")));
    }
    o.push_str(&format!("],\"meta\":{}}}", id_json(items.meta_root())));
    o
}

fn analysis(
    items: &mut ir::Items,
    new: Option<&mut ir::Items>,
    options: &opt::Options,
) -> Result<Box<dyn traits::Emit>, String> {
    let r = match options {
        opt::Options::Top(ref o) => analyze::top(items, o),
        opt::Options::Dominators(ref o) => analyze::dominators(items, o),
        opt::Options::Paths(ref o) => analyze::paths(items, o),
        opt::Options::Monos(ref o) => analyze::monos(items, o),
        opt::Options::Garbage(ref o) => analyze::garbage(items, o),
        opt::Options::Diff(ref o) => analyze::diff(items, new.expect("harness: diff needs two"), o),
    };
    r.map_err(|e| format!("{}", e))
}

fn emit_one(data: &dyn traits::Emit, items: &ir::Items, fmt: &str) -> String {
    let f = match fmt {
        "text" => traits::OutputFormat::Text,
        "json" => traits::OutputFormat::Json,
        "csv" => traits::OutputFormat::Csv,
        _ => panic!("harness: format {}", fmt),
    };
    let r = panic::catch_unwind(AssertUnwindSafe(|| {
        let mut buf: Vec<u8> = Vec::new();
        data.emit(items, &mut buf, f).map(|()| buf)
    }));
    match r {
        Ok(Ok(buf)) => match String::from_utf8(buf) {
            Ok(s) => format!("{{\"ok\":{}}}", js(&s)),
            Err(_) => "{\"panic\":\"output is not UTF-8\"}".to_string(),
        },
        Ok(Err(e)) => format!("{{\"err\":{}}}", js(&format!("{}", e))),
        Err(e) => format!("{{\"panic\":{}}}", js(&panic_text(e))),
    }
}

fn emit_all(data: &dyn traits::Emit, items: &ir::Items, fmts: &str) -> String {
    let v: Vec<String> = fmts
        .split(',')
        .map(|f| format!("{}:{}", js(f), emit_one(data, items, f)))
        .collect();
    format!("{{\"out\":{{{}}}}}", v.join(","))
}

thread_local! {
    /// Where the last panic happened.
    static PLACE: std::cell::RefCell<String> = Default::default();
}

fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    let place = PLACE.with(|p| p.borrow().clone());
    format!("{} at {}", panic_message(e), place)
}

fn panic_message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

fn store(w: &mut World, slot: &str, r: Result<ir::Items, String>) -> Res {
    w.items.remove(slot);
    let items = r?;
    let d = format!("{{\"size\":{}}}", items.size());
    w.items.insert(slot.to_string(), items);
    Ok(d)
}

fn bool_arg(s: &str) -> bool {
    s == "1"
}

fn opt_json(o: &opt::Options) -> String {
    use opt::CommonCliOptions;
    let common = format!(
        "\"input\":{},\"mode\":{},\"format\":{},\"dest\":{}",
        js(&o.input().to_string_lossy()),
        js(&format!("{:?}", o.parse_mode())),
        js(&format!("{:?}", o.output_format())),
        match o.output_destination() {
            opt::OutputDestination::Stdout => "null".to_string(),
            opt::OutputDestination::Path(p) => js(&p.to_string_lossy()),
        }
    );
    let strs = |v: &[String]| {
        let v: Vec<String> = v.iter().map(|s| js(s)).collect();
        format!("[{}]", v.join(","))
    };
    match o {
        opt::Options::Top(o) => format!("{{\"cmd\":\"top\",{},{}}}", common, top_json(o)),
        opt::Options::Dominators(o) => format!(
            "{{\"cmd\":\"dominators\",{},\"items\":{},{}}}",
            common,
            strs(o.items()),
            doms_json(o)
        ),
        opt::Options::Paths(o) => format!(
            "{{\"cmd\":\"paths\",{},\"items\":{},{}}}",
            common,
            strs(o.functions()),
            paths_json(o)
        ),
        opt::Options::Monos(o) => format!(
            "{{\"cmd\":\"monos\",{},\"items\":{},{}}}",
            common,
            strs(o.functions()),
            monos_json(o)
        ),
        opt::Options::Diff(o) => format!(
            "{{\"cmd\":\"diff\",{},\"items\":{},\"new_input\":{},{}}}",
            common,
            strs(o.items()),
            js(&o.new_input().to_string_lossy()),
            diff_json(o)
        ),
        opt::Options::Garbage(o) => {
            format!("{{\"cmd\":\"garbage\",{},{}}}", common, garbage_json(o))
        }
    }
}

fn top_json(o: &opt::Top) -> String {
    format!(
        "\"max_items\":{},\"retaining_paths\":{},\"retained\":{}",
        o.max_items(),
        o.retaining_paths(),
        o.retained()
    )
}
fn doms_json(o: &opt::Dominators) -> String {
    format!(
        "\"max_depth\":{},\"max_rows\":{},\"regex\":{}",
        o.max_depth(),
        o.max_rows(),
        o.using_regexps()
    )
}
fn paths_json(o: &opt::Paths) -> String {
    format!(
        "\"max_depth\":{},\"max_paths\":{},\"descending\":{},\"regex\":{}",
        o.max_depth(),
        o.max_paths(),
        o.descending(),
        o.using_regexps()
    )
}
fn monos_json(o: &opt::Monos) -> String {
    format!(
        "\"only_generics\":{},\"max_generics\":{},\"max_monos\":{},\"regex\":{}",
        o.only_generics(),
        o.max_generics(),
        o.max_monos(),
        o.using_regexps()
    )
}
fn diff_json(o: &opt::Diff) -> String {
    format!(
        "\"max_items\":{},\"regex\":{}",
        o.max_items(),
        o.using_regexps()
    )
}
fn garbage_json(o: &opt::Garbage) -> String {
    format!(
        "\"max_items\":{},\"show_data_segments\":{}",
        o.max_items(),
        o.show_data_segments()
    )
}

fn options_from(toks: &[&str]) -> Result<opt::Options, String> {
    let mut args = vec!["twiggy".to_string()];
    args.extend(toks.iter().map(|t| unhex_str(t)));
    opt::Options::from_iter_safe(args).map_err(|e| {
        let kind = format!("{:?}", e.kind);
        format!("usage: {}", kind)
    })
}

fn set_option(w: &mut World, toks: &[&str]) -> Res {
    // optset KIND SLOT SETTER VALUE
    let (kind, slot, setter, val) = (toks[0], toks[1], toks[2], toks[3]);
    let num = || val.parse::<u32>().unwrap();
    macro_rules! done {
        ($o:expr, $j:ident) => {
            Ok(format!("{{{}}}", $j($o)))
        };
    }
    match kind {
        "top" => {
            let o = w.tops.entry(slot.into()).or_insert_with(opt::Top::new);
            match setter {
                "new" => *o = opt::Top::new(),
                "max_items" => o.set_max_items(num()),
                "retaining_paths" => o.set_retaining_paths(bool_arg(val)),
                "retained" => o.set_retained(bool_arg(val)),
                _ => panic!("harness: setter"),
            }
            done!(o, top_json)
        }
        "dominators" => {
            let o = w
                .doms
                .entry(slot.into())
                .or_insert_with(opt::Dominators::new);
            match setter {
                "new" => *o = opt::Dominators::new(),
                "max_depth" => o.set_max_depth(num()),
                "max_rows" => o.set_max_rows(num()),
                "regex" => o.set_using_regexps(bool_arg(val)),
                _ => panic!("harness: setter"),
            }
            done!(o, doms_json)
        }
        "paths" => {
            let o = w.paths.entry(slot.into()).or_insert_with(opt::Paths::new);
            match setter {
                "new" => *o = opt::Paths::new(),
                "add_function" => o.add_function(unhex_str(val)),
                "max_depth" => o.set_max_depth(num()),
                "max_paths" => o.set_max_paths(num()),
                "descending" => o.set_descending(bool_arg(val)),
                "regex" => o.set_using_regexps(bool_arg(val)),
                _ => panic!("harness: setter"),
            }
            let fs: Vec<String> = o.functions().iter().map(|s| js(s)).collect();
            Ok(format!(
                "{{\"items\":[{}],{}}}",
                fs.join(","),
                paths_json(o)
            ))
        }
        "monos" => {
            let o = w.monos.entry(slot.into()).or_insert_with(opt::Monos::new);
            match setter {
                "new" => *o = opt::Monos::new(),
                "only_generics" => o.set_only_generics(bool_arg(val)),
                "max_generics" => o.set_max_generics(num()),
                "max_monos" => o.set_max_monos(num()),
                _ => panic!("harness: setter"),
            }
            done!(o, monos_json)
        }
        "diff" => {
            let o = w
                .diffs
                .entry(slot.into())
                .or_insert_with(opt::Diff::default);
            match setter {
                "new" => *o = opt::Diff::default(),
                "max_items" => o.set_max_items(num()),
                "regex" => o.set_using_regexps(bool_arg(val)),
                _ => panic!("harness: setter"),
            }
            done!(o, diff_json)
        }
        "garbage" => {
            let o = w
                .garbage
                .entry(slot.into())
                .or_insert_with(opt::Garbage::new);
            match setter {
                "new" => *o = opt::Garbage::new(),
                "max_items" => o.set_max_items(num()),
                _ => panic!("harness: setter"),
            }
            done!(o, garbage_json)
        }
        _ => panic!("harness: option kind"),
    }
}

/// Load an option slot from parsed command line arguments, so that setters can
/// be applied on top of flags.
fn load_option(w: &mut World, slot: &str, toks: &[&str]) -> Res {
    let o = options_from(toks)?;
    let j = opt_json(&o);
    match o {
        opt::Options::Top(o) => {
            w.tops.insert(slot.into(), o);
        }
        opt::Options::Dominators(o) => {
            w.doms.insert(slot.into(), o);
        }
        opt::Options::Paths(o) => {
            w.paths.insert(slot.into(), o);
        }
        opt::Options::Monos(o) => {
            w.monos.insert(slot.into(), o);
        }
        opt::Options::Diff(o) => {
            w.diffs.insert(slot.into(), o);
        }
        opt::Options::Garbage(o) => {
            w.garbage.insert(slot.into(), o);
        }
    }
    Ok(j)
}

fn step(w: &mut World, line: &str) -> Res {
    let t: Vec<&str> = line.split(' ').collect();
    match t[0] {
        "reset" => {
            *w = World::default();
            Ok("{}".into())
        }
        // --- IR construction -------------------------------------------------
        "new" => {
            w.builders
                .insert(t[1].into(), ir::ItemsBuilder::new(t[2].parse().unwrap()));
            Ok("{}".into())
        }
        "item" => {
            // item SLOT SEC IDX KIND SIZE NAME ROOT
            let id = parse_id(t[2], t[3]);
            let name = unhex_str(t[6]);
            let size: u32 = t[5].parse().unwrap();
            let item = match t[4] {
                "code" => {
                    let code = ir::Code::new(&name);
                    ir::Item::new(id, name, size, code)
                }
                "data" => ir::Item::new(id, name, size, ir::Data::new(None)),
                "debug" => ir::Item::new(id, name, size, ir::DebugInfo::new()),
                _ => ir::Item::new(id, name, size, ir::Misc::new()),
            };
            let b = w.builders.get_mut(t[1]).expect("harness: builder");
            if bool_arg(t[7]) {
                b.add_root(item);
            } else {
                b.add_item(item);
            }
            Ok("{}".into())
        }
        "edge" => {
            let b = w.builders.get_mut(t[1]).expect("harness: builder");
            b.add_edge(parse_id(t[2], t[3]), parse_id(t[4], t[5]));
            Ok("{}".into())
        }
        "added" => {
            let b = w.builders.get_mut(t[1]).expect("harness: builder");
            Ok(format!("{{\"added\":{}}}", b.size_added()))
        }
        "finish" => {
            let b = w.builders.remove(t[1]).expect("harness: builder");
            store(w, t[1], Ok(b.finish()))
        }
        // --- parsing ---------------------------------------------------------
        "parse" => {
            let data = unhex(t[2]);
            let r = parser::parse(&data).map_err(|e| format!("{}", e));
            store(w, t[1], r)
        }
        "parsefile" => {
            use std::str::FromStr;
            let mode = traits::ParseMode::from_str(&unhex_str(t[2])).map_err(|e| e.to_string())?;
            let path: std::ffi::OsString =
                std::os::unix::ffi::OsStringExt::from_vec(unhex(t[3]));
            let r = parser::read_and_parse(path, mode).map_err(|e| format!("{}", e));
            store(w, t[1], r)
        }
        "drop" => {
            w.items.remove(t[1]);
            Ok("{}".into())
        }
        // --- IR queries ------------------------------------------------------
        "dump" => Ok(dump(w.items.get(t[1]).ok_or("no items")?)),
        "retained" => {
            let items = w.items.get_mut(t[1]).ok_or("no items")?;
            items.compute_retained_sizes();
            let v: Vec<String> = items
                .iter()
                .map(|i| items.retained_size(i.id()).to_string())
                .collect();
            Ok(format!("{{\"retained\":[{}]}}", v.join(",")))
        }
        "idoms" => {
            let items = w.items.get_mut(t[1]).ok_or("no items")?;
            items.compute_dominators();
            let v: Vec<String> = items
                .iter()
                .map(|i| {
                    items
                        .immediate_dominators()
                        .get(&i.id())
                        .map(|d| id_json(*d))
                        .unwrap_or_else(|| "null".into())
                })
                .collect();
            Ok(format!("{{\"idoms\":[{}]}}", v.join(",")))
        }
        "domtree" => {
            let items = w.items.get_mut(t[1]).ok_or("no items")?;
            items.compute_dominator_tree();
            let v: Vec<String> = items
                .iter()
                .map(|i| {
                    let c: Vec<String> = items
                        .dominator_tree()
                        .get(&i.id())
                        .map(|c| c.iter().map(|d| id_json(*d)).collect())
                        .unwrap_or_else(Vec::new);
                    format!("[{}]", c.join(","))
                })
                .collect();
            Ok(format!("{{\"domtree\":[{}]}}", v.join(",")))
        }
        "preds" => {
            let items = w.items.get_mut(t[1]).ok_or("no items")?;
            items.compute_predecessors();
            let v: Vec<String> = items
                .iter()
                .map(|i| {
                    let c: Vec<String> = items.predecessors(i.id()).map(id_json).collect();
                    format!("[{}]", c.join(","))
                })
                .collect();
            Ok(format!("{{\"preds\":[{}]}}", v.join(",")))
        }
        "byname" => {
            let items = w.items.get(t[1]).ok_or("no items")?;
            Ok(format!(
                "{{\"id\":{}}}",
                items
                    .get_item_by_name(&unhex_str(t[2]))
                    .map(|i| id_json(i.id()))
                    .unwrap_or_else(|| "null".into())
            ))
        }
        "code" => {
            let name = unhex_str(t[1]);
            let item = ir::Item::new(ir::Id::entry(0, 0), name.clone(), 0, ir::Code::new(&name));
            Ok(format!(
                "{{\"name\":{},\"generic\":{}}}",
                js(item.name()),
                item.monomorphization_of()
                    .map(js)
                    .unwrap_or_else(|| "null".into())
            ))
        }
        // --- analyses --------------------------------------------------------
        "run" => {
            // run SLOT SLOT2|- FMTS ARGS...
            let options = options_from(&t[4..])?;
            let mut items = w.items.remove(t[1]).ok_or("no items")?;
            let mut other = if t[2] == "-" {
                None
            } else {
                w.items.remove(t[2])
            };
            let r = panic::catch_unwind(AssertUnwindSafe(|| {
                let data = analysis(&mut items, other.as_mut(), &options)?;
                Ok(emit_all(&*data, &items, t[3]))
            }));
            w.items.insert(t[1].to_string(), items);
            if let Some(o) = other {
                w.items.insert(t[2].to_string(), o);
            }
            match r {
                Ok(r) => r,
                Err(e) => panic::resume_unwind(e),
            }
        }
        "runopt" => {
            // runopt SLOT SLOT2|- FMTS KIND OPTSLOT: run with an option slot
            let options = match t[4] {
                "top" => opt::Options::Top(w.tops[t[5]].clone()),
                "dominators" => opt::Options::Dominators(w.doms[t[5]].clone()),
                "paths" => opt::Options::Paths(w.paths[t[5]].clone()),
                "monos" => opt::Options::Monos(w.monos[t[5]].clone()),
                "diff" => opt::Options::Diff(w.diffs[t[5]].clone()),
                "garbage" => opt::Options::Garbage(w.garbage[t[5]].clone()),
                _ => panic!("harness: kind"),
            };
            let mut items = w.items.remove(t[1]).ok_or("no items")?;
            let mut other = if t[2] == "-" {
                None
            } else {
                w.items.remove(t[2])
            };
            let r = panic::catch_unwind(AssertUnwindSafe(|| {
                let data = analysis(&mut items, other.as_mut(), &options)?;
                Ok(emit_all(&*data, &items, t[3]))
            }));
            w.items.insert(t[1].to_string(), items);
            if let Some(o) = other {
                w.items.insert(t[2].to_string(), o);
            }
            match r {
                Ok(r) => r,
                Err(e) => panic::resume_unwind(e),
            }
        }
        // --- options ---------------------------------------------------------
        "optparse" => Ok(opt_json(&options_from(&t[1..])?)),
        "optload" => load_option(w, t[1], &t[2..]),
        "optset" => set_option(w, &t[1..]),
        _ => panic!("harness: unknown command {}", t[0]),
    }
}

/// Allocations that cannot be meant: reported with the place that asked for
/// them, rather than by whether this machine happens to have that much memory.
const TOO_MUCH: usize = 1 << 32;

struct Guard;

/// The innermost place outside of the standard library, and whether the
/// container of an object file was being read.
fn place_by_backtrace() -> String {
    let text = std::backtrace::Backtrace::force_capture().to_string();
    let place = text
        .lines()
        .map(|l| l.trim())
        .filter(|l| l.starts_with("at ") && !l.contains("/rustc/") && !l.contains("harness/src/"))
        .map(|l| &l[3..])
        .next()
        .unwrap_or("?");
    let place = place.rsplit("/registry/src/").next().unwrap();
    let place = place.splitn(2, '/').last().unwrap();
    let headers = text
        .lines()
        .any(|l| l.contains("object::read::any::File") && l.trim_end().ends_with("::parse"));
    format!("{}{}", place, if headers { " in File::parse" } else { "" })
}

fn refuse(size: usize) -> ! {
    let m = format!("allocation of {} bytes at {}", size, place_by_backtrace());
    let line = format!("{{\"panic\":{}}}\n", js(&m));
    let mut f = unsafe { <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(1) };
    let _ = f.write_all(line.as_bytes());
    std::process::exit(86)
}

unsafe impl std::alloc::GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > TOO_MUCH {
            refuse(l.size())
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > TOO_MUCH {
            refuse(l.size())
        }
        std::alloc::System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > TOO_MUCH {
            refuse(n)
        }
        std::alloc::System.realloc(p, l, n)
    }
}

#[global_allocator]
static GUARD: Guard = Guard;

fn main() {
    panic::set_hook(Box::new(|i| {
        let mut s = i.location().map(|l| l.to_string()).unwrap_or_default();
        if s.starts_with("library/") || s.contains("/registry/src/") {
            s = place_by_backtrace();
        }
        PLACE.with(|p| *p.borrow_mut() = s);
    }));
    let stdin = io::stdin();
    let stdout = io::stdout();
    // Deep graphs recurse; give the code under test a main-thread-like stack.
    let child = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut w = World::default();
            let mut out = stdout.lock();
            for line in stdin.lock().lines() {
                let line = line.unwrap();
                if line.is_empty() {
                    continue;
                }
                let r = panic::catch_unwind(AssertUnwindSafe(|| step(&mut w, &line)));
                let s = match r {
                    Ok(Ok(s)) => s,
                    Ok(Err(e)) => format!("{{\"err\":{}}}", js(&e)),
                    Err(e) => format!("{{\"panic\":{}}}", js(&panic_text(e))),
                };
                writeln!(out, "{}", s).unwrap();
                out.flush().unwrap();
            }
        })
        .unwrap();
    child.join().unwrap();
}
