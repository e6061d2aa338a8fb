mod api;
mod core;
mod cx;
mod fam;
mod gen;
mod json;
mod val;
mod w;
mod w_attributes;
mod w_content;
mod w_fonts;
mod w_forms;
mod w_graphics;
mod w_interactive;
mod w_misc;
mod w_object;
mod w_structure;

use std::fmt::Write as _;
use std::io::Write;

/// pdfv FAMILY:COUNT,... SEED OUTDIR SHARDS [PROGRAMS]
/// Runs COUNT programs of each family, or the programs of a file, and writes
/// their traces, one per line, to OUTDIR/<shard>.ndjson.  `FAMILY@N:1` is
/// just the N-th program of a family.
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 2 {
        // How many methods an area has.
        println!("{}", fam::size(&a[1]));
        return;
    }
    let fams: Vec<(String, usize)> = a[1].split(',').map(|s| {
        let (f, n) = s.split_once(':').unwrap();
        (f.into(), n.parse().unwrap())
    }).collect();
    let seed: u64 = a[2].parse().unwrap();
    let dir = a[3].clone();
    let shards: usize = a[4].parse().unwrap();
    let programs = a.get(5).cloned();
    // Deep recursion over nested writers needs a large stack.
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
        work(&fams, seed, &dir, shards, programs)
    }).unwrap();
    match h.join() {
        Ok(()) => {}
        Err(e) => {
            eprintln!("pdfv: {}", cx::msg(e));
            std::process::exit(3);
        }
    }
}

fn work(fams: &[(String, usize)], seed: u64, dir: &str, shards: usize, programs: Option<String>) {
    let mut files: Vec<_> = (0..shards).map(|k| {
        std::io::BufWriter::new(std::fs::File::create(format!("{dir}/{k}.ndjson")).unwrap())
    }).collect();
    // In case the library hangs or aborts.
    let current = format!("{dir}/current");
    let mut load = vec![0usize; shards];
    let mut hits = std::collections::BTreeMap::new();
    let mut total = 0;
    let mut events = 0;
    let mut bytes = 0;
    let mut put = |t: fam::Trace| {
        // Least loaded shard first.
        let k = (0..shards).min_by_key(|&k| load[k]).unwrap();
        load[k] += t.line.len() + 300;
        bytes += t.line.len();
        events += t.events;
        total += 1;
        writeln!(files[k], "{}", t.line).unwrap();
        for (k, n) in t.hits {
            *hits.entry(k).or_insert(0u64) += n;
        }
    };
    if let Some(p) = programs {
        let text = std::fs::read_to_string(&p).unwrap();
        for (n, line) in text.lines().enumerate() {
            if line.trim().is_empty() {
                continue;
            }
            let j = json::J::parse(line).unwrap_or_else(|e| panic!("harness: {p}:{}: {e}", n + 1));
            std::fs::write(&current, format!("{}/program/{n}", fams[0].0)).unwrap();
            put(fam::scripted(&fams[0].0, n, &j));
        }
    } else {
        for (fam, count) in fams {
            let (fam, from) = match fam.split_once('@') {
                Some((f, n)) => (f, n.parse::<usize>().unwrap()),
                None => (fam.as_str(), 0),
            };
            for n in from..from + count {
                if n % 16 == 0 {
                    std::fs::write(&current, format!("{fam}/{seed}/{n}..")).unwrap();
                }
                for t in fam::random(fam, seed, n) {
                    put(t);
                }
            }
        }
    }
    for f in &mut files {
        f.flush().unwrap();
    }
    let mut s = format!("{{\"programs\":{total},\"events\":{events},\"bytes\":{bytes},\"calls\":{{");
    for (n, (k, v)) in hits.iter().enumerate() {
        write!(s, "{}\"{k}\":{v}", if n > 0 { "," } else { "" }).unwrap();
    }
    s.push_str("}}");
    println!("{s}");
}
