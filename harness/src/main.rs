//! Conformance driver: runs the real `lunify::unify` on recorded stimuli and
//! records one observation per call. It contains no judgement: every decision
//! about an observation is taken by the TLA+ specification in /verif/spec.
//!
//! usage: driver MODE IN OUT
//!
//! MODE `seq`      each stimulus once, in order
//! MODE `history`  each stimulus in order, then in reverse order, then from
//!                 several threads at once (one observation list per stimulus)
//! MODE `peak`     as `seq`, with the memory that each call had allocated at most
//! MODE `layout`   stimuli are layout specifications, observation is whether the
//!                 constructor accepts them
//!
//! IN: one stimulus per line, `id|format|settings|hexbytes`
//!   format   = f,e,i,s,n,w,g    (format byte, endianness 0/1, int, size_t,
//!              instruction, number width in bytes, integral flag)
//!   settings = A;B;C for lua50;lua51;output, each  stack,fpf,sighex,LAYOUT
//!   LAYOUT   = e.g. o6c9b9a8
//!   `-` in place of any value leaves it as the defaults of the crate have it
//! OUT: one JSON object per line.

use std::alloc::{GlobalAlloc, Layout, System};
use std::fs;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use lunify::{unify, BitWidth, Endianness, Format, InstructionLayout, LunifyError, OperandType, Settings};

/// Counts what is allocated.
struct Counting;

static ALLOCATED: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
/// The peak when the last call returned.
static CALL_PEAK: AtomicUsize = AtomicUsize::new(0);

impl Counting {
    fn more(size: usize) {
        let now = ALLOCATED.fetch_add(size, Ordering::Relaxed) + size;
        PEAK.fetch_max(now, Ordering::Relaxed);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        Self::more(layout.size());
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        Self::more(layout.size());
        System.alloc_zeroed(layout)
    }

    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        ALLOCATED.fetch_sub(layout.size(), Ordering::Relaxed);
        System.dealloc(pointer, layout)
    }

    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        // both may exist at the same time
        Self::more(size);
        let moved = System.realloc(pointer, layout, size);
        ALLOCATED.fetch_sub(layout.size(), Ordering::Relaxed);
        moved
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

/// A call that has not returned after this long counts as a hang. `VERIF_HANG_SECONDS`
/// sets another limit.
fn hang_limit() -> Duration {
    let seconds = std::env::var("VERIF_HANG_SECONDS").ok().and_then(|value| value.parse().ok()).unwrap_or(20);
    Duration::from_secs(seconds)
}

/// What a stimulus says about one dialect; what it leaves out (`-`) is the default of the crate.
type Dialect = (Option<u64>, Option<u64>, Option<String>, Option<InstructionLayout>);

struct Stimulus {
    id: String,
    format: Format,
    settings: [Dialect; 3],
    input: Vec<u8>,
}

fn unhex(text: &str) -> Vec<u8> {
    (0..text.len() / 2).map(|index| u8::from_str_radix(&text[index * 2..index * 2 + 2], 16).unwrap()).collect()
}

fn width(text: &str) -> BitWidth {
    match text {
        "4" => BitWidth::Bit32,
        "8" => BitWidth::Bit64,
        other => panic!("driver: width {other}"),
    }
}

fn parse_format(text: &str) -> Format {
    let parts: Vec<&str> = text.split(',').collect();
    let mut format = Format::default();
    for (position, part) in parts.iter().enumerate().filter(|(_, part)| **part != "-") {
        match position {
            0 => format.format = part.parse().unwrap(),
            1 => {
                format.endianness = match *part {
                    "0" => Endianness::Big,
                    _ => Endianness::Little,
                }
            }
            2 => format.integer_width = width(part),
            3 => format.size_t_width = width(part),
            4 => format.instruction_width = width(part),
            5 => format.number_width = width(part),
            _ => format.is_number_integral = *part == "1",
        }
    }
    format
}

fn parse_operands(text: &str) -> [OperandType; 4] {
    let bytes = text.as_bytes();
    let mut operands = Vec::new();
    let mut index = 0;
    while index < bytes.len() {
        let kind = bytes[index];
        let start = index + 1;
        index += 1;
        while index < bytes.len() && bytes[index].is_ascii_digit() {
            index += 1;
        }
        let size: u64 = text[start..index].parse().unwrap();
        operands.push(match kind {
            b'o' => OperandType::Opcode(size),
            b'a' => OperandType::A(size),
            b'b' => OperandType::B(size),
            b'c' => OperandType::C(size),
            other => panic!("driver: operand {other}"),
        });
    }
    operands.try_into().unwrap()
}

fn parse_dialect(text: &str) -> Result<Dialect, LunifyError> {
    let parts: Vec<&str> = text.split(',').collect();
    let given = |position: usize| (parts[position] != "-").then_some(parts[position]);
    let layout = match given(3) {
        Some(text) => Some(
            catch_unwind(|| InstructionLayout::from_specification(parse_operands(text))).unwrap_or(Err(LunifyError::InvalidInstructionLayout))?,
        ),
        None => None,
    };
    Ok((
        given(0).map(|text| text.parse().unwrap()),
        given(1).map(|text| text.parse().unwrap()),
        given(2).map(|text| String::from_utf8(unhex(text)).unwrap()),
        layout,
    ))
}

fn parse_line(line: &str) -> Result<Stimulus, String> {
    let fields: Vec<&str> = line.split('|').collect();
    let dialects: Result<Vec<_>, _> = fields[2].split(';').map(parse_dialect).collect();
    let dialects = match dialects {
        Ok(dialects) => dialects,
        Err(_) => return Err(fields[0].to_string()),
    };
    let Ok(settings) = dialects.try_into() else { panic!("driver: settings") };
    Ok(Stimulus {
        id: fields[0].to_string(),
        format: parse_format(fields[1]),
        settings,
        input: unhex(fields[3]),
    })
}

fn error_observation(error: LunifyError) -> (String, Vec<u64>) {
    // The public API: name and payload of the reported error.
    let text = format!("{error:?}");
    let (name, payload) = match text.split_once('(') {
        Some((name, rest)) => (
            name.to_string(),
            rest.trim_end_matches(')')
                .trim_matches(|character| character == '[' || character == ']')
                .split(',')
                .filter_map(|part| part.trim().parse::<u64>().ok())
                .collect(),
        ),
        None => (text, Vec::new()),
    };
    (name, payload)
}

fn json_numbers<T: std::fmt::Display>(values: &[T]) -> String {
    let mut text = String::with_capacity(values.len() * 4 + 2);
    text.push('[');
    for (index, value) in values.iter().enumerate() {
        if index > 0 {
            text.push(',');
        }
        text.push_str(&value.to_string());
    }
    text.push(']');
    text
}

type Returned = std::thread::Result<Result<Vec<u8>, LunifyError>>;

#[cfg(not(feature = "serde"))]
fn call(input: &[u8], format: &Format, settings: &Settings) -> Returned {
    catch_unwind(AssertUnwindSafe(|| unify(input, format, settings)))
}

/// The arguments and errors are stored and read back.
#[cfg(feature = "serde")]
fn call(input: &[u8], format: &Format, settings: &Settings) -> Returned {
    use serde::Deserialize;
    catch_unwind(AssertUnwindSafe(|| {
        let format = serde_json::to_value(format).unwrap();
        let settings = serde_json::to_value(settings).unwrap();
        let result = unify(input, &Format::deserialize(&format).unwrap(), &Settings::deserialize(&settings).unwrap());
        result.map_err(|error| LunifyError::deserialize(&serde_json::to_value(error).unwrap()).unwrap())
    }))
}

fn observe(stimulus: &Stimulus) -> String {
    let mut settings = Settings::default();
    macro_rules! apply {
        ($target:expr, $dialect:expr) => {
            if let Some(value) = $dialect.0 {
                $target.stack_limit = value;
            }
            if let Some(value) = $dialect.1 {
                $target.fields_per_flush = value;
            }
            if let Some(value) = &$dialect.2 {
                $target.binary_signature = value;
            }
            if let Some(value) = $dialect.3 {
                $target.layout = value;
            }
        };
    }
    apply!(settings.lua50, stimulus.settings[0]);
    apply!(settings.lua51, stimulus.settings[1]);
    apply!(settings.output, stimulus.settings[2]);

    let result = call(&stimulus.input, &stimulus.format, &settings);
    CALL_PEAK.store(PEAK.load(Ordering::Relaxed), Ordering::Relaxed);

    match result {
        Ok(Ok(bytes)) => format!("\"tag\":\"ok\",\"err\":\"\",\"arg\":[],\"out\":{}", json_numbers(&bytes)),
        Ok(Err(error)) => {
            let (name, payload) = error_observation(error);
            // Payloads beyond the range of TLC's integers are clipped; no comparison needs them exactly.
            let payload: Vec<u64> = payload.into_iter().map(|value| value.min(2_000_000_000)).collect();
            format!("\"tag\":\"err\",\"err\":\"{name}\",\"arg\":{},\"out\":[]", json_numbers(&payload))
        }
        Err(_) => "\"tag\":\"panic\",\"err\":\"\",\"arg\":[],\"out\":[]".to_string(),
    }
}

/// Without layouts there are no settings to call with.
fn attempt(entry: &Result<Stimulus, String>) -> String {
    match entry {
        Ok(stimulus) => observe(stimulus),
        Err(_) => "\"tag\":\"layout\",\"err\":\"\",\"arg\":[],\"out\":[]".to_string(),
    }
}

fn main() {
    let arguments: Vec<String> = std::env::args().collect();
    let (mode, input, output) = (arguments[1].clone(), arguments[2].clone(), arguments[3].clone());
    if std::env::var("VERIF_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }

    let lines: Vec<String> = BufReader::new(fs::File::open(&input).unwrap()).lines().map(|line| line.unwrap()).collect();

    if mode == "layout" {
        let mut writer = BufWriter::new(fs::File::create(&output).unwrap());
        for line in lines {
            let (id, spec) = line.split_once('|').unwrap();
            let tag = match catch_unwind(|| InstructionLayout::from_specification(parse_operands(spec))) {
                Ok(Ok(_)) => ("ok", String::new()),
                Ok(Err(error)) => ("err", error_observation(error).0),
                Err(_) => ("panic", String::new()),
            };
            writeln!(writer, "{{\"id\":\"{id}\",\"tag\":\"{}\",\"err\":\"{}\"}}", tag.0, tag.1).unwrap();
        }
        return;
    }

    // The watchdog ends the process when one call takes too long; the runner
    // sees which stimulus was in progress from the last observation written.
    let started = Arc::new(AtomicU64::new(0));
    let progress = Arc::new(AtomicUsize::new(0));
    let clock = Instant::now();
    let limit = hang_limit();
    {
        let started = started.clone();
        let progress = progress.clone();
        std::thread::spawn(move || {
            let mut last = (usize::MAX, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let current = progress.load(Ordering::SeqCst);
                if current != last.0 {
                    last = (current, Instant::now());
                } else if started.load(Ordering::SeqCst) == 1 && last.1.elapsed() > limit {
                    std::process::exit(77);
                }
            }
        });
    }
    let _ = clock;

    let parsed: Vec<Result<Stimulus, String>> = lines.iter().map(|line| parse_line(line)).collect();

    // A stack of the size an ordinary main thread has.
    let worker = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let mut writer = BufWriter::new(fs::File::create(&output).unwrap());
        started.store(1, Ordering::SeqCst);

        let first: Vec<String> = parsed
            .iter()
            .map(|entry| {
                let before = ALLOCATED.load(Ordering::Relaxed);
                PEAK.store(before, Ordering::Relaxed);
                let mut text = attempt(entry);
                progress.fetch_add(1, Ordering::SeqCst);
                if mode == "peak" {
                    // the text of the observation is not part of the call
                    text.push_str(&format!(",\"peak\":{}", CALL_PEAK.load(Ordering::Relaxed).saturating_sub(before).min(2_000_000_000)));
                }
                if mode == "seq" || mode == "peak" {
                    let id = match entry {
                        Ok(stimulus) => &stimulus.id,
                        Err(id) => id,
                    };
                    writeln!(writer, "{{\"id\":\"{id}\",{text}}}").unwrap();
                    writer.flush().unwrap();
                    String::new()
                } else {
                    text
                }
            })
            .collect();

        if mode == "history" {
            let mut again: Vec<String> = parsed
                .iter()
                .rev()
                .map(|entry| {
                    progress.fetch_add(1, Ordering::SeqCst);
                    attempt(entry)
                })
                .collect();
            again.reverse();
            let threads: Vec<Vec<String>> = std::thread::scope(|scope| {
                let handles: Vec<_> = (0..4)
                    .map(|offset| {
                        let parsed = &parsed;
                        let progress = &progress;
                        // Neither the name of a thread nor the size of its stack may
                        // make a difference.
                        let builder = match offset {
                            0 => std::thread::Builder::new(),
                            1 => std::thread::Builder::new().name("main".to_string()),
                            _ => std::thread::Builder::new().name(format!("worker {offset}")),
                        };
                        builder
                            .stack_size((8 << 20) << offset)
                            .spawn_scoped(scope, move || {
                                let count = parsed.len();
                                let mut results: Vec<(usize, String)> = (0..count)
                                    .map(|index| {
                                        let index = (index + offset * count / 4) % count;
                                        progress.fetch_add(1, Ordering::SeqCst);
                                        (index, attempt(&parsed[index]))
                                    })
                                    .collect();
                                results.sort_by_key(|(index, _)| *index);
                                results.into_iter().map(|(_, text)| text).collect()
                            })
                            .unwrap()
                    })
                    .collect();
                handles.into_iter().map(|handle| handle.join().unwrap()).collect()
            });
            for (index, entry) in parsed.iter().enumerate() {
                let id = match entry {
                    Ok(stimulus) => &stimulus.id,
                    Err(id) => id,
                };
                write!(writer, "{{\"id\":\"{id}\",\"obs\":[{{{}}},{{{}}}", first[index], again[index]).unwrap();
                for thread in &threads {
                    write!(writer, ",{{{}}}", thread[index]).unwrap();
                }
                writeln!(writer, "]}}").unwrap();
            }
        }
        writer.flush().unwrap();
    });
    worker.unwrap().join().unwrap();
}
