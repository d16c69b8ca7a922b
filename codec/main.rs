//! Decodes byte sequences with waterbear and with an independent table, and
//! compares: which instruction, which operand values, size, encoding again.
//!
//!   wbcodec TABLE all FIRST END        every sequence of up to 3 bytes
//!   wbcodec TABLE some COUNT SEED      random sequences, exact allocations
//!
//! The table has a line per instruction:
//!   mnemonic size mask value kind:bit.shift+bit.shift... kind:...
use std::panic;
use waterbear::instruction::Instr;

struct Field {
    kind: String,
    bits: Vec<(u32, u32)>,
}

struct Form {
    mnemonic: String,
    size: usize,
    mask: u32,
    value: u32,
    fields: Vec<Field>,
}

impl Form {
    fn parse(line: &str) -> Form {
        let mut words = line.split(' ');
        let mut next = || words.next().unwrap();
        let mnemonic = next().to_string();
        let size = next().parse().unwrap();
        let mask = next().parse().unwrap();
        let value = next().parse().unwrap();
        let mut fields = vec![];
        for word in words {
            let parts: Vec<&str> = word.split(':').collect();
            let bits = parts[1]
                .split('+')
                .map(|pair| {
                    let p: Vec<u32> = pair.split('.').map(|n| n.parse().unwrap()).collect();
                    (p[0], p[1])
                })
                .collect();
            fields.push(Field { kind: parts[0].to_string(), bits });
        }
        Form { mnemonic, size, mask, value, fields }
    }

    fn word(&self, bytes: &[u8]) -> u32 {
        let mut word = 0;
        for byte in &bytes[..self.size] {
            word = word << 8 | *byte as u32;
        }
        word
    }

    /// The operand values: relative targets are signed, others are not.
    fn values(&self, word: u32, out: &mut Vec<i64>) {
        out.clear();
        for field in &self.fields {
            let mut value: i64 = 0;
            for (bit, shift) in &field.bits {
                value |= ((word >> shift & 1) as i64) << bit;
            }
            out.push(match field.kind.as_str() {
                "r8" if value > 127 => value - 256,
                "r16" if value > 32767 => value - 65536,
                _ => value,
            });
        }
    }
}

/// A region that ends where an inaccessible page begins.
#[cfg(not(miri))]
mod guarded {
    extern "C" {
        fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
    }

    pub struct Region(*mut u8, *mut u8);

    impl Region {
        pub fn new() -> Region {
            unsafe {
                let base = mmap(std::ptr::null_mut(), 3 * 4096, 3, 0x22, -1, 0);
                assert!(base as isize != -1);
                assert!(mprotect(base, 4096, 0) == 0);
                assert!(mprotect(base.add(2 * 4096), 4096, 0) == 0);
                Region(base.add(4096), base.add(2 * 4096))
            }
        }

        /// The bytes directly before the inaccessible page.
        pub fn last(&mut self, bytes: &[u8]) -> &[u8] {
            unsafe {
                let at = self.1.sub(bytes.len());
                std::ptr::copy_nonoverlapping(bytes.as_ptr(), at, bytes.len());
                std::slice::from_raw_parts(at, bytes.len())
            }
        }

        /// The bytes directly behind an inaccessible page.
        pub fn first(&mut self, bytes: &[u8]) -> &[u8] {
            unsafe {
                std::ptr::copy_nonoverlapping(bytes.as_ptr(), self.0, bytes.len());
                std::slice::from_raw_parts(self.0, bytes.len())
            }
        }
    }
}

struct Checker {
    table: Vec<Form>,
    by_byte: Vec<Option<usize>>,
    values: Vec<i64>,
    decoded: u64,
    undecodable: u64,
    none: u64,
    bad: u64,
}

impl Checker {
    fn new(table: Vec<Form>) -> Checker {
        let by_byte = (0..256u32)
            .map(|b| {
                let mut found = table.iter().enumerate().filter(|(_, f)| {
                    let up = 8 * (f.size as u32 - 1);
                    b & (f.mask >> up) == f.value >> up
                });
                let first = found.next().map(|(n, _)| n);
                assert!(found.next().is_none());
                first
            })
            .collect();
        Checker { table, by_byte, values: vec![], decoded: 0, undecodable: 0, none: 0, bad: 0 }
    }

    fn bad(&mut self, bytes: &[u8], what: &str) {
        self.bad += 1;
        if self.bad <= 5 {
            println!("BAD {:02X?}: {}", bytes, what);
        }
    }

    fn check(&mut self, bytes: &[u8]) {
        let result = match panic::catch_unwind(|| {
            let decoded = Instr::<i32, u8>::decode(bytes);
            decoded.map(|instr| {
                let encoded = instr.encode();
                let again = Instr::<i32, u8>::decode(&encoded);
                (again.as_ref() == Some(&instr), instr.size(), encoded, format!("{:?}", instr))
            })
        }) {
            Ok(result) => result,
            Err(_) => return self.bad(bytes, "panics"),
        };
        let expected = bytes.first().and_then(|b| self.by_byte[*b as usize]);
        let n = match expected {
            Some(n) if self.table[n].size <= bytes.len() => n,
            _ => {
                if expected.is_some() {
                    self.undecodable += 1;
                } else {
                    self.none += 1;
                }
                if let Some((_, _, _, text)) = result {
                    self.bad(bytes, &format!("too short for its instruction, but decoded as {}", text));
                }
                return;
            }
        };
        let mut values = std::mem::replace(&mut self.values, vec![]);
        let form = &self.table[n];
        form.values(form.word(bytes), &mut values);
        let problem = match result {
            None => Some(format!("should be {} {:?}, but isn't decoded", form.mnemonic, values)),
            Some((again, size, encoded, text)) => {
                if !same(&text, &form.mnemonic, &values) {
                    Some(format!("should be {} {:?}, but is decoded as {}", form.mnemonic, values, text))
                } else if size != form.size {
                    Some(format!("{} has size {} instead of {}", text, size, form.size))
                } else if encoded != bytes[..form.size] {
                    Some(format!("{} is encoded as {:02X?}", text, encoded))
                } else if !again {
                    Some(format!("{}: its encoding {:02X?} is decoded differently", text, encoded))
                } else {
                    None
                }
            }
        };
        self.values = values;
        self.decoded += 1;
        if let Some(problem) = problem {
            self.bad(bytes, &problem);
        }
    }
}

/// Whether `Mnemonic_kind(1, 2)` is the instruction with those operands.
fn same(text: &str, mnemonic: &str, values: &[i64]) -> bool {
    let open = text.find('(').unwrap_or(text.len());
    let name = &text[..open];
    let name = &name[..name.find('_').unwrap_or(name.len())];
    if !name.eq_ignore_ascii_case(mnemonic) {
        return false;
    }
    let mut rest = values.iter();
    let inner = text[open..].trim_start_matches('(').trim_end_matches(')');
    for word in inner.split(',').map(|w| w.trim()).filter(|w| !w.is_empty()) {
        match (word.parse::<i64>(), rest.next()) {
            (Ok(a), Some(b)) if a == *b => {}
            _ => return false,
        }
    }
    rest.next().is_none()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = if args[1].starts_with('=') {
        args[1][1..].replace(';', "\n")
    } else {
        std::fs::read_to_string(&args[1]).unwrap()
    };
    let mut checker = Checker::new(text.lines().map(Form::parse).collect());
    panic::set_hook(Box::new(|_| {}));
    let number = |n: usize| args[n].parse::<u64>().unwrap();
    match args[2].as_str() {
        #[cfg(not(miri))]
        "all" => {
            let mut region = guarded::Region::new();
            checker.check(region.last(&[]));
            for first in number(3)..number(4) {
                eprintln!("first byte {:02X}", first);
                let first = first as u8;
                checker.check(region.last(&[first]));
                checker.check(region.first(&[first]));
                let mut noise: u32 = 0x9E3779B9 ^ first as u32;
                for second in 0..=255u8 {
                    checker.check(region.last(&[first, second]));
                    for third in 0..=255u8 {
                        let three = [first, second, third];
                        checker.check(region.last(&three));
                        checker.check(region.first(&three));
                        // What follows has no influence
                        noise = noise.wrapping_mul(1664525).wrapping_add(1013904223);
                        let mut long = [noise as u8; 7];
                        long[..3].copy_from_slice(&three);
                        long[4] = (noise >> 8) as u8;
                        let len = 4 + (noise >> 30) as usize;
                        checker.check(region.last(&long[..len]));
                    }
                }
            }
        }
        "some" => {
            let mut state = number(4) ^ 0x2545F4914F6CDD1D;
            for n in 0..number(3) {
                let mut bytes = vec![];
                for k in 0..3 {
                    state ^= state << 13;
                    state ^= state >> 7;
                    state ^= state << 17;
                    let edge = [0, 1, 0x7F, 0x80, 0xFF];
                    bytes.push(if k == 0 {
                        n as u8
                    } else if state & 0x100 == 0 {
                        edge[(state >> 9) as usize % 5]
                    } else {
                        (state >> 16) as u8
                    });
                }
                let len = (state >> 32) as usize % 8;
                bytes.truncate(if len > 3 { 3 } else { len });
                let exact: Box<[u8]> = bytes.into_boxed_slice();
                checker.check(&exact);
            }
        }
        other => panic!("{}", other),
    }
    println!("DONE decoded={} too-short={} none={} bad={}", checker.decoded, checker.undecodable, checker.none, checker.bad);
}
