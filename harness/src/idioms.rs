//! Not a property: ways of writing Rust that a change of the repository may use. Every path's result
//! is compared with a native run, so that the executor and the models are known to carry them.
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, BufWriter, Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use vrt::*;
use vstd::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use vstd::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use vstd::sync::{Arc, Mutex, OnceLock, RwLock};

pub const TABLE: &[(&str, fn())] = &[("idioms_values", idioms_values), ("idioms_bytes", idioms_bytes), ("idioms_symbolic", idioms_symbolic), ("idioms_files", idioms_files), ("idioms_threads", idioms_threads), ("idioms_maps", idioms_maps)];

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
struct P {
    a: u8,
    b: String,
    c: Option<Vec<u16>>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum E {
    A,
    B(u8),
    C { x: u16, y: i8 },
}
trait Shape {
    fn area(&self) -> u64;
    fn name(&self) -> String {
        format!("shape of {}", self.area())
    }
}
struct Sq(u64);
struct Re(u64, u64);
impl Shape for Sq {
    fn area(&self) -> u64 {
        self.0 * self.0
    }
}
impl Shape for Re {
    fn area(&self) -> u64 {
        self.0 * self.1
    }
    fn name(&self) -> String {
        "rectangle".into()
    }
}
struct Dropper<'a>(&'a Cell<u32>, u32);
impl Drop for Dropper<'_> {
    fn drop(&mut self) {
        self.0.set(self.0.get() * 3 + self.1);
    }
}
fn parse(s: &str) -> Result<u32, Box<dyn std::error::Error>> {
    let (a, b) = s.split_once(':').ok_or("no colon")?;
    Ok(a.trim().parse::<u32>()? + u32::from_str_radix(b, 16)?)
}
macro_rules! idioms {
    ($x:ident; $(($($e:expr),* $(,)?)),* $(,)?) => {
        #[allow(unused)]
        pub const LIST: &[fn([u8; 4]) -> Vec<u8>] = &[$(|$x: [u8; 4]| -> Vec<u8> {
            let mut s = String::new();
            $(write!(s, "{:?};", $e).unwrap();)*
            s.into_bytes()
        }),*];
    };
}
idioms! { x;
    // integers
    (x[0].leading_zeros(), x[0].trailing_zeros(), x[0].count_ones(), x[0].swap_bytes(), x[0].reverse_bits(), x[1].is_power_of_two()),
    (u32::from_le_bytes(x), u32::from_be_bytes(x), i32::from_ne_bytes(x), u32::from_be_bytes(x).rotate_left(7), u32::from_le_bytes(x).to_be()),
    (x[0].checked_add(x[1]), x[0].checked_sub(x[1]), x[0].checked_mul(x[1]), x[0].checked_div(x[1]), x[0].checked_rem(x[1]), x[0].checked_pow(3), x[0].checked_shl(x[1] as u32)),
    (x[0].saturating_add(x[1]), x[0].saturating_sub(x[1]), x[0].saturating_mul(x[1]), (x[0] as i8).saturating_add(x[1] as i8), (x[0] as i8).saturating_sub(x[1] as i8)),
    (x[0].wrapping_add(x[1]), x[0].wrapping_neg(), x[0].wrapping_shl(9), x[0].overflowing_add(x[1]), x[0].overflowing_sub(x[1]), x[0].overflowing_mul(x[1])),
    (x[0].abs_diff(x[1]), (x[0] as i8).abs_diff(x[1] as i8), (x[0] as i16 - 100).signum(), (x[0] as i16 - 100).rem_euclid(7), (x[0] as i16 - 100).div_euclid(7), (x[0] as i32 - 50).pow(3)),
    ((x[0] as u128 * u64::MAX as u128) >> 3, (x[0] as u128) << 100, u128::MAX / (x[1] as u128 + 1), u128::MAX % (x[0] as u128 + 3), (x[0] as i128 - 200) * 1_000_000_000_000_000_000_000),
    (x[0].div_ceil(7), (x[0] as usize).next_multiple_of(8), (x[0] as u32).next_power_of_two(), (x[0] as u32 + 1).ilog2(), (x[0] as u32 + 1).ilog10(), (x[0] as u64).isqrt()),
    (u16::try_from(x[0] as u32 * 300).ok(), i8::try_from(x[0]).is_ok(), usize::try_from(x[0] as i32 - 1).is_err(), char::from_u32(x[0] as u32 * 300), char::from_digit(x[0] as u32 % 36, 36), u8::try_from('x').unwrap()),
    (x[0].min(x[1]), x[0].max(x[1]), x[0].clamp(10, 100), std::cmp::Reverse(x[0]) < std::cmp::Reverse(x[1]), x[0].cmp(&x[1]), x[0].partial_cmp(&x[1]), (x[0], x[1]).cmp(&(x[1], x[0])), x[0].cmp(&x[1]).then_with(|| x[2].cmp(&x[3])).reverse()),
    (x[0] & !x[1] | x[2] ^ x[3], x[0] >> (x[1] % 8), (x[0] as i8) >> (x[1] % 8), !(x[0] as u64), -(x[0] as i64)),
    // iterators
    (x.iter().map(|b| *b as u32).sum::<u32>(), x.iter().map(|b| *b as u64 + 1).product::<u64>(), x.iter().fold(7u32, |a, b| a.wrapping_mul(31).wrapping_add(*b as u32)), x.iter().copied().reduce(|a, b| a ^ b)),
    (x.iter().max(), x.iter().min(), x.iter().max_by_key(|b| **b ^ 0x55), x.iter().min_by(|a, b| a.cmp(b)), x.iter().position(|b| *b == x[3]), x.iter().rposition(|b| *b == x[0])),
    (x.iter().any(|b| *b > 200), x.iter().all(|b| *b < 100), x.iter().find(|b| **b > 50), x.iter().filter_map(|b| b.checked_sub(100)).collect::<Vec<_>>(), x.iter().find_map(|b| b.checked_sub(100)), x.iter().count(), x.iter().last(), x.iter().nth(2)),
    (x.iter().rev().enumerate().skip(1).step_by(2).collect::<Vec<_>>(), x.iter().zip(x.iter().skip(1)).map(|(a, b)| a ^ b).collect::<Vec<_>>(), x.iter().take_while(|b| **b < 90).collect::<Vec<_>>(), x.iter().skip_while(|b| **b < 90).collect::<Vec<_>>(), x.iter().map_while(|b| b.checked_sub(3)).collect::<Vec<_>>()),
    (x.chunks(3).map(|c| c.to_vec()).collect::<Vec<_>>(), x.chunks_exact(2).map(|c| c[0] ^ c[1]).collect::<Vec<_>>(), x.rchunks(3).map(|c| c.len()).collect::<Vec<_>>(), x.windows(2).filter(|w| w[0] < w[1]).count(), x.split(|b| *b == 0).map(|s| s.len()).collect::<Vec<_>>()),
    (x.iter().scan(0u16, |s, b| { *s += *b as u16; Some(*s) }).collect::<Vec<_>>(), x.iter().flat_map(|b| [*b >> 4, *b & 15]).collect::<Vec<_>>(), vec![Some(1), None, Some(3)].into_iter().flatten().collect::<Vec<i32>>(), x.iter().inspect(|_| ()).cycle().take(6).collect::<Vec<_>>()),
    (x.iter().partition::<Vec<u8>, _>(|b| **b > 99), x.iter().map(|b| (*b, *b ^ 1)).unzip::<u8, u8, Vec<_>, Vec<_>>(), x.iter().map(|b| if *b < 250 { Ok(*b) } else { Err("big") }).collect::<Result<Vec<_>, _>>(), x.iter().map(|b| b.checked_add(5)).collect::<Option<Vec<_>>>(), x.iter().map(|b| b.checked_add(9).map(u32::from).ok_or(*b)).sum::<Result<u32, u8>>().is_ok() || true),
    (std::iter::once(1).chain(std::iter::repeat(2).take(3)).chain(std::iter::empty()).collect::<Vec<_>>(), std::iter::successors(Some(x[0] as u32 + 1), |n| if *n < 1000 { Some(n * 3) } else { None }).collect::<Vec<_>>(), std::iter::from_fn({ let mut n = x[0] % 5; move || if n > 0 { n -= 1; Some(n) } else { None } }).collect::<Vec<_>>(), std::iter::repeat_with(|| 4).take(2).collect::<Vec<_>>()),
    (x.iter().try_fold(0u8, |a, b| a.checked_add(*b)), x.iter().try_for_each(|b| if *b == 1 { Err(*b) } else { Ok(()) }), { let mut p = x.iter().peekable(); let mut n = 0; while let Some(b) = p.next() { if p.peek() == Some(&b) { n += 1 } } n }, (0..10).rev().step_by(3).collect::<Vec<_>>(), (1..=x[0] as u32 % 6).sum::<u32>()),
    (x.iter().is_sorted(), x.iter().eq([1, 2].iter()), x.iter().lt([1u8, 2].iter()), x.iter().cmp(x.iter().rev()), x.iter().by_ref().take(2).collect::<Vec<_>>(), x.map(|b| b as u16 * 2), std::array::from_fn::<u8, 3, _>(|i| i as u8 + x[0] % 7)),
    // slices and vectors
    ({ let mut v = x.to_vec(); v.sort(); v.dedup(); v }, { let mut v = x.to_vec(); v.sort_unstable_by(|a, b| b.cmp(a)); v }, { let mut v = x.to_vec(); v.sort_by_key(|b| (b & 7, *b)); v }, { let mut v = x.to_vec(); v.sort_by_cached_key(|b| b.to_string()); v }, { let mut v = x.to_vec(); v.reverse(); v.swap(0, 2); v.rotate_left(1); v }),
    ({ let mut v = x.to_vec(); v.insert(1, 9); v.remove(0); v.truncate(3); v.extend([1, 2]); v.extend_from_within(..2); v }, { let mut v = x.to_vec(); v.retain(|b| *b > 50); v }, { let mut v = x.to_vec(); let d: Vec<u8> = v.drain(1..3).collect(); (v, d) }, { let mut v = x.to_vec(); let t = v.split_off(1); (v, t) }, { let mut v = x.to_vec(); v.resize(6, 7); v.swap_remove(1); v.dedup_by_key(|b| *b / 2); v }),
    ({ let mut v = x.to_vec(); v.splice(1..2, [5, 6, 7]); v }, { let mut v = vec![0u8; 6]; v[1..5].copy_from_slice(&x); v.copy_within(1..3, 4); v.fill(x[0] / 2); v[2..].fill_with(|| 3); v }, { let mut v = x.to_vec(); let (a, b) = v.split_at_mut(2); a.swap_with_slice(b); v }, [x.to_vec(), vec![1]].concat(), [&x[..2], &x[3..]].join(&0)),
    (x.first(), x.last(), x.get(1..9), x.get(2), x.split_first(), x.split_last().map(|p| p.1.len()), x.contains(&7), x.starts_with(&[0]), x.ends_with(&[255]), x.strip_prefix(&[0]), x.first_chunk::<2>(), x.iter().rev().copied().collect::<Box<[u8]>>()),
    ([1u8, 5, 9, 200].binary_search(&x[0]), [1u8, 5, 9, 200].partition_point(|b| *b < x[0]), [1u8, 5, 9].binary_search_by_key(&(x[0] / 2), |b| b / 2), { let mut v = x; v.select_nth_unstable(1); v[1] }, x.repeat(2), x.array_chunks_or()),
    (<[u8; 2]>::try_from(&x[..2]).unwrap(), <&[u8; 4]>::try_from(&x[..]).is_ok(), <[u8; 3]>::try_from(x.to_vec()).is_err(), u16::from_le_bytes(x[1..3].try_into().unwrap()), x.as_slice().to_owned(), x.escape_ascii().to_string(), x.is_ascii(), x.to_ascii_uppercase(), x.eq_ignore_ascii_case(b"abcd"), x.trim_ascii().len()),
    (match x { [0, ..] => 1, [a, b, ..] if a == b => 2, [.., 255] => 3, [_, rest @ ..] if rest[0] > 100 => 4, _ => 5 }, match x[0] { 0..=9 => 'd', b'a'..=b'f' | b'A'..=b'F' => 'h', n @ 128.. if n % 2 == 0 => 'e', _ => '?' }, matches!(x[0], 1 | 3 | 5..=80), if let [a, _, c, _] = x { a ^ c } else { 0 }),
    // collections
    ({ let mut m = BTreeMap::new(); for (i, b) in x.iter().enumerate() { m.entry(*b).or_insert_with(Vec::new).push(i); } (m.first_key_value().map(|p| *p.0), m.range(10..).count(), m.into_iter().collect::<Vec<_>>()) }, x.iter().collect::<BTreeSet<_>>()),
    ({ let mut m: HashMap<u8, u32> = HashMap::new(); for b in x { *m.entry(b).or_default() += 1; } let mut v: Vec<_> = m.iter().map(|(k, v)| (*k, *v)).collect(); v.sort(); (m.len(), m.get(&x[0]).copied(), m.contains_key(&1), m.remove(&x[1]), m.values().sum::<u32>(), v) }, { let m: HashMap<u8, char> = [(1, 'a'), (2, 'b')].into_iter().collect(); m.get(&(x[0] % 4)).copied().unwrap_or('z') }),
    ({ let mut m: HashMap<u8, Vec<u8>> = HashMap::with_capacity(4); m.entry(x[0]).and_modify(|v| v.push(1)).or_insert_with(|| vec![2]); m.entry(x[0]).and_modify(|v| v.push(3)).or_default(); match m.entry(x[1]) { vstd::collections::hash_map::Entry::Occupied(e) => e.get().len(), vstd::collections::hash_map::Entry::Vacant(e) => { e.insert(vec![]); 99 } } }, { let mut m: HashMap<u8, u8> = x.iter().map(|b| (*b, b / 2)).collect(); m.retain(|k, _| *k > 20); m.insert(3, 4); m.get_mut(&3).map(|v| std::mem::replace(v, 5)); let mut v: Vec<_> = m.into_iter().collect(); v.sort_unstable(); v }),
    ({ let a: HashSet<u8> = x.iter().copied().collect(); let b = HashSet::from([1, 2, 3]); let mut v: Vec<_> = a.intersection(&b).copied().collect(); v.sort(); (v, a.is_subset(&b), a.is_disjoint(&b), a.union(&b).count(), a.difference(&b).count(), a.len()) }, { let mut h = BinaryHeap::from(x.to_vec()); h.push(9); (h.pop(), h.peek().copied(), h.into_sorted_vec()) }),
    ({ let mut d: VecDeque<u8> = x.into_iter().collect(); d.push_front(1); d.push_back(2); d.rotate_left(2); let f = d.pop_front(); d.truncate(4); d.extend([7]); (f, d.front().copied(), d.back().copied(), d.iter().rev().copied().collect::<Vec<_>>(), d.range(1..3).copied().collect::<Vec<_>>(), d.make_contiguous().to_vec(), d.drain(..2).count(), d.len()) }, { let mut l = LinkedList::new(); l.push_back(x[0]); l.push_front(2); l }),
    ({ let mut d: VecDeque<u8> = VecDeque::with_capacity(3); for b in x { if d.len() == 3 { d.pop_front(); } d.push_back(b); } d.retain(|b| *b != 0); d.insert(0, 8); d.swap(0, 1); (d.contains(&8), d.get(1).copied(), d.binary_search(&8).is_ok(), d.iter().skip(1).map(|b| *b as u32).sum::<u32>()) }.0),
    // texts
    (format!("{:02x}{:02X}|{:>5}|{:<5}|{:^5}|{:05}|{:+}|{:#x}|{:#010b}|{:o}", x[0], x[1], x[2], x[3], x[0], x[1], x[2], x[3], x[0], x[1])),
    (format!("{0:?} {0:#?} {name} {1:.3}", (x[0], "a\"b\n"), 1.5f64, name = x[1])),
    (format!("{:?} {:?} {:?}", P { a: x[0], b: "t".into(), c: Some(vec![x[1] as u16 * 2]) }, P::default(), [E::A, E::B(x[2]), E::C { x: x[0] as u16 + 1, y: x[1] as i8 }])),
    (format!("{:>width$}|{:*<1$}|{:e}|{:.3}|{}", x[0], 6, x[1] as f64 + 0.5, x[2] as f64 / 8.0, f64::MAX > x[0] as f64, width = 7)),
    ({ let mut s = String::new(); for b in x { write!(s, "{:02x}", b).unwrap(); } s.push('!'); s.insert(0, '>'); s.insert_str(1, "ab"); (s.len(), s.find("0"), s.rfind('f'), s.pop(), s.clone(), s.to_uppercase(), s.replace("0", "--"), s.replacen('f', "", 1), s.split_off(3)) }),
    ({ let s = String::from_utf8_lossy(&x).into_owned(); (s.chars().count(), s.chars().rev().collect::<String>(), s.char_indices().last(), s.bytes().len(), s.is_char_boundary(1), s.lines().count(), s.chars().filter(|c| c.is_alphanumeric()).count()) }),
    (std::str::from_utf8(&x).map(|s| s.len()).map_err(|e| e.valid_up_to()), String::from_utf8(x.to_vec()).is_ok(), std::str::from_utf8(&x).unwrap_or("bad").to_string(), x[0].is_ascii_digit(), x[0].is_ascii_hexdigit(), (x[0] as char).is_alphabetic(), (x[0] as char).to_digit(16), (x[0] as char).to_ascii_lowercase(), (x[0] as char).is_whitespace(), (x[0] as char).is_numeric(), x[0].is_ascii_punctuation(), (x[0] as char).len_utf8(), (x[0] as char).to_uppercase().to_string()),
    ({ let s = format!(" a,b,,{} ", x[0]); ((s.trim().to_string(), s.split(',').map(str::trim).map(String::from).collect::<Vec<_>>(), s.rsplit(',').next().unwrap().len(), s.splitn(2, ',').last().unwrap().to_string(), s.split_whitespace().count(), s.trim_start().len(), s.trim_end_matches(' ').len(), 0), (s.split_once(",,").map(|p| p.1.to_string()), s.rsplit_once(',').map(|p| p.0.to_string()), s.strip_prefix(" a").is_some(), s.contains("b,"), s.starts_with(char::is_whitespace), s.matches(',').count(), s.split_terminator(',').count(), s.split_inclusive(',').count())) }),
    (format!("{}", x[0]).parse::<u8>(), "300".parse::<u8>().is_err(), format!("-{}", x[0]).parse::<i16>(), "0.5".parse::<f64>(), "x".parse::<char>(), "true".parse::<bool>(), u32::from_str_radix(&format!("{:x}", x[1]), 16), "127.0.0.1:80".parse::<std::net::SocketAddr>().map(|a| a.port()), "::1".parse::<std::net::IpAddr>().map(|a| a.is_loopback()), "".parse::<u8>().map_err(|e| e.to_string())),
    (parse(&format!(" {} :{:x}", x[0], x[1])).map_err(|e| e.to_string()), parse("1").map_err(|e| e.to_string()), parse("q:1").map_err(|e| e.to_string()), parse("1:zz").map_err(|e| e.to_string())),
    ({ let c: Cow<str> = if x[0] > 100 { Cow::Borrowed("small") } else { Cow::Owned(format!("{}", x[0])) }; (c.len(), c.into_owned()) }, { let mut v: Vec<String> = x.iter().map(u8::to_string).collect(); v.sort(); v.join("-") }, ["a", "b"].concat(), "ab".repeat(3), "Ab".eq_ignore_ascii_case("aB"), "abc".char_indices().map(|(i, c)| (c, i)).collect::<Vec<_>>(), "z".cmp("a"), "häß".to_lowercase(), "häß".escape_debug().to_string(), std::char::from_digit(7, 10)),
    // options, results, memory
    ({ let o = x[0].checked_sub(100); ((o.map(|v| v + 1), o.and_then(|v| v.checked_sub(50)), o.unwrap_or(3), o.unwrap_or_else(|| x[1]), o.unwrap_or_default(), o.ok_or("e"), o.filter(|v| v % 2 == 0), o.xor(Some(1))), (o.or(Some(2)), o.zip(Some('c')), o.map_or(0, |v| v * 1), o.map_or_else(|| 5, |v| v), o.is_some_and(|v| v > 9), o.iter().count(), o.as_ref().copied(), o.is_none())) }),
    ({ let r: Result<u8, String> = if x[0] < 128 { Ok(x[0]) } else { Err(format!("e{}", x[0])) }; (r.clone().map(|v| v / 2), r.clone().map_err(|e| e.len()), r.clone().and_then(|v| if v > 5 { Ok(v) } else { Err("x".into()) }), r.clone().or_else(|e| if e.len() > 3 { Ok(1) } else { Err(0) }), r.clone().unwrap_or(9), r.clone().as_ref().ok().copied(), r.as_ref().err().cloned(), r.clone().is_ok_and(|v| v > 3)) }),
    ({ let mut o = Some(x[0]); let t = o.take(); let r = o.replace(4); let g = *o.get_or_insert(9); let i = o.insert(7); *i += 1; (t, r, g, o, std::mem::take(&mut o), Some(Some(1)).flatten(), Some(Ok::<u8, u8>(1)).transpose()) }, { let (mut a, mut b) = (vec![x[0]], vec![]); std::mem::swap(&mut a, &mut b); let c = std::mem::replace(&mut a, vec![3]); (a, b, c, std::mem::size_of::<P>() > 0) }),
    ({ let c = Cell::new(1); { let _a = Dropper(&c, 2); let b = Dropper(&c, x[0] as u32); drop(b); let v = vec![Dropper(&c, 5), Dropper(&c, 6)]; std::mem::drop(v); } c.get() }, { let r = Rc::new(RefCell::new(vec![x[0]])); let s = r.clone(); s.borrow_mut().push(1); let t = (Rc::strong_count(&r), r.borrow().len(), Rc::ptr_eq(&r, &s), r.try_borrow_mut().is_ok(), Rc::downgrade(&r).upgrade().is_some()); t }, { let mut a = Arc::new(x[0]); *Arc::make_mut(&mut a) /= 2; (Arc::try_unwrap(a).unwrap(), Arc::<str>::from("ab").len(), Arc::<[u8]>::from(vec![1]).len()) }),
    ({ let v: Vec<Box<dyn Shape>> = vec![Box::new(Sq(x[0] as u64)), Box::new(Re(x[1] as u64, 3))]; v.iter().map(|s| (s.area(), s.name())).collect::<Vec<_>>() }, { let f: Box<dyn Fn(u8) -> u16> = if x[0] > 9 { Box::new(|b| b as u16 + 1) } else { Box::new(move |b| b as u16 * x[1] as u16) }; f(3) }, { fn twice(f: impl Fn(u32) -> u32) -> impl Fn(u32) -> u32 { move |n| f(f(n)) } twice(|n| n * 3)(x[0] as u32) }, { let mut n = 0; let mut add = |k: u32| n += k; add(2); add(x[0] as u32); n }),
    ({ let any: Box<dyn std::any::Any> = if x[0] > 9 { Box::new(5u8) } else { Box::new("t") }; (any.downcast_ref::<u8>().copied(), any.is::<&str>()) }, catch(|| { if x[0] > 128 { panic!("no {}", x[0]) } x[0] }).is_ok(), catch(|| x[0] as usize / (x[1] as usize)).is_ok(), catch(|| x[x[0] as usize % 8]).is_ok(), catch(|| vec![1u8].get(x[0] as usize % 2).unwrap().clone()).is_err(), catch(|| Some(x[0]).filter(|b| *b < 100).expect("few")).is_ok()),
    ({ let r = 'o: loop { for (i, b) in x.iter().enumerate() { if *b > 60 { break 'o Some(i); } if i == 3 { break 'o None; } } }; r }, { let mut n = x[0] as u32 + 1; let mut k = 0; while n != 1 && k < 20 { n = if n % 2 == 0 { n / 2 } else { 3 * n + 1 }; k += 1; } k }, { let Some(a) = x[0].checked_sub(7) else { return vec![1] }; a }, { let t = if x[0] == x[1] { "same" } else { "other" }; t }, { const K: [u32; 3] = [1, 20, 300]; static S: &[&str] = &["p", "q"]; (K[x[0] as usize % 3], S[x[1] as usize % 2]) }),
    // floats, times
    ((x[0] as f64 / 3.0).floor() as i64, (x[0] as f64 * 0.37).round() as u32, (x[0] as f64 - 128.0).abs().to_bits(), (x[0] as f64).max(9.5) as u8, (x[0] as f64 * 1e9) as u8, (x[0] as f32 / 2.0).trunc() as i32, (-1.5f64) as u8, f64::NAN as u32, x[0] as f64 == 7.0, (x[0] as f64).total_cmp(&5.0), (x[0] as f64).ceil().min(99.0), 2f64.powi(x[0] as i32 % 8), (x[0] as f64).fract()),
    ({ let d = std::time::Duration::from_millis(x[0] as u64 * 777); (d.as_secs(), d.subsec_nanos(), d.as_secs_f64() > 3.0, (d * 3).as_millis(), (d / 2).as_micros(), d.checked_sub(std::time::Duration::from_secs(9)), d.saturating_sub(std::time::Duration::from_secs(9)), d + std::time::Duration::new(1, 999_999_999), d.is_zero()) }),
    // several at once
    ({ let m = Mutex::new(vec![x[0]]); { m.lock().unwrap().push(2); } let a = m.try_lock().is_ok(); let n = m.lock().map(|g| g.len()).unwrap_or(0); (a, n, m.into_inner().unwrap()) }, { let l = RwLock::new(x[0]); let a = *l.read().unwrap(); *l.write().unwrap() = 3; let b = *l.read().unwrap(); (a, b) }, { let a = AtomicU64::new(x[0] as u64); (a.fetch_add(2, Ordering::SeqCst), a.swap(9, Ordering::Relaxed), a.compare_exchange(9, 4, Ordering::AcqRel, Ordering::Acquire), a.load(Ordering::Acquire), a.fetch_max(x[1] as u64, Ordering::SeqCst), a.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |v| v.checked_sub(5)), a.into_inner()) }),
    ({ static B: AtomicBool = AtomicBool::new(false); static N: AtomicUsize = AtomicUsize::new(0); static L: OnceLock<Vec<u8>> = OnceLock::new(); (B.swap(true, Ordering::SeqCst), N.fetch_add(x[0] as usize, Ordering::SeqCst), L.get_or_init(|| x.to_vec()).len(), L.get().is_some(), L.set(vec![]).is_err()) }, { thread_local! { static T: Cell<u8> = Cell::new(3); } T.with(|t| { t.set(t.get() + x[0] % 9); t.get() }) }),
    // readers and writers
    ({ let mut c = Cursor::new(x.to_vec()); let mut b = [0; 2]; c.read_exact(&mut b).unwrap(); let p = c.position(); c.seek(SeekFrom::Start(1)).unwrap(); let mut r = Vec::new(); c.read_to_end(&mut r).unwrap(); (b, p, r, c.read_exact(&mut b).is_err(), c.seek(SeekFrom::Current(-2)).unwrap(), c.seek(SeekFrom::End(-1)).unwrap()) }, { let mut s: &[u8] = &x; let mut b = [0; 3]; s.read_exact(&mut b).unwrap(); (b, s.len(), (&x[..]).take(2).bytes().map(|b| b.unwrap()).collect::<Vec<_>>(), x.chain(&[1u8, 2][..]).read_to_end(&mut Vec::new()).unwrap()) }),
    ({ let r = BufReader::with_capacity(2, &b"ab\ncd\r\n\nz"[..]); r.lines().map(|l| l.unwrap()).collect::<Vec<_>>() }, { let mut v = Vec::new(); { let mut w = BufWriter::with_capacity(3, &mut v); w.write_all(&x).unwrap(); w.write_all(b"hello").unwrap(); w.flush().unwrap(); writeln!(w, "{}", x[0]).unwrap(); } v }, { let mut v = [0u8; 3]; let mut s = &mut v[..]; let n = s.write(&x).unwrap(); (n, v) }, { let mut v = Vec::new(); BufReader::new(&b"a,b"[..]).read_until(b',', &mut v).unwrap(); v }, std::io::copy(&mut &x[..], &mut std::io::sink()).unwrap()),
    (serde_json::json!({"a": x[0], "b": [null, true, "t\u{e9}"], "c": {"d": -1.5}}).to_string(), serde_json::from_str::<serde_json::Value>(r#"{"k":[1,2.5,"x",null,true,{"y":-3}]}"#).map(|v| (v["k"][1].as_f64(), v["k"][2].as_str().map(String::from), v["k"].as_array().map(|a| a.len()), v["q"].is_null(), v.pointer("/k/5/y").and_then(|y| y.as_i64()))).unwrap(), serde_json::from_str::<Vec<u8>>(&format!("[1, {}]", x[0])).unwrap(), serde_json::to_string(&vec![Some(x[0]), None]).unwrap(), serde_json::from_str::<u8>("300").is_err(), serde_json::to_vec(&("a", x[0])).unwrap().len(), serde_json::Value::from(x[0]).as_u64()),
}
trait ArrayChunks {
    fn array_chunks_or(&self) -> usize;
}
impl ArrayChunks for [u8; 4] {
    fn array_chunks_or(&self) -> usize {
        self.iter().filter(|b| **b > 3).count()
    }
}
fn one(x: [u8; 4], k: usize) {
    let r = LIST[k](x);
    let t = unsafe { std::str::from_utf8_unchecked(&r) };
    // short enough to be read
    for c in r.chunks(200) {
        observe("result", c);
    }
    reach("idiom");
}
harness!(idioms_values, {
    let x = [[0, 0x37, 0x80, 0xff], [0xff, 1, 0, 0x66], [b'a', b'9', b'Z', b' '], [7, 7, 200, 100], [0xc3, 0xa9, 0xf0, 0x41]][vrt::concretize(choose("values", 5) as u64) as usize];
    one(x, vrt::concretize(choose("idiom", LIST.len()) as u64) as usize);
});
harness!(idioms_bytes, {
    let k = vrt::concretize(choose("idiom", LIST.len()) as u64) as usize;
    let mut x = [5, 0x37, 0x80, 0xff];
    // printing in decimal is left to concrete values
    x[choose("place", 2)] = vrt::concretize(any_u8("byte") as u64 % 16) as u8;
    one(x, k);
});
macro_rules! terms {
    ($a:ident $b:ident $c:ident $d:ident; $($e:expr),* $(,)?) => {
        #[allow(unused)]
        const TERMS: &[fn(u8, u8, u8, u8) -> u64] = &[$(|$a, $b, $c, $d| $e as u64),*];
    };
}
fn w32(a: u8, b: u8, c: u8, d: u8) -> u32 {
    u32::from_le_bytes([a, b, c, d])
}
terms! { a b c d;
    a.wrapping_add(b), a.wrapping_sub(b), a.wrapping_mul(b), a / (b | 1), a % (b | 1), (a as i8) / ((b & 0x7e | 1) as i8), (a as i8) % ((b & 0x7e | 1) as i8),
    a << (b & 7), a >> (b & 7), (a as i8) >> (b & 7), a.rotate_left(b as u32), a.rotate_right(3), w32(a, b, c, d).rotate_left(a as u32), w32(a, b, c, d).swap_bytes(), a.reverse_bits(),
    a.leading_zeros(), a.trailing_zeros(), a.count_ones(), w32(a, b, c, d).leading_zeros(), w32(a, b, c, d).trailing_zeros(), w32(a, b, c, d).count_ones(), (w32(a, b, c, d) as u64 * 0x1_0000_0001).count_zeros(),
    a.saturating_add(b), a.saturating_sub(b), a.saturating_mul(b), (a as i8).saturating_add(b as i8), (a as i8).saturating_sub(b as i8), a.checked_add(b).map_or(999, u32::from), a.checked_mul(b).map_or(999, u32::from), a.overflowing_sub(b).1, (a as i8).checked_mul(b as i8).is_none(), (a as i8).overflowing_add(b as i8).1,
    a.abs_diff(b), (a as i8).unsigned_abs(), (a as i8).wrapping_abs(), (a as i8).signum(), (a as i16 - b as i16).rem_euclid(13), (a as i16 - b as i16).div_euclid(13), a.min(b), a.max(b), (a as i8).min(b as i8), (a as i8).max(b as i8), a.clamp(20, 77),
    (a as u64) * (b as u64) * (c as u64) * 0x9E37_79B9, (w32(a, b, c, d) as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 17, (w32(a, b, c, d) as u128 * 0xFFFF_FFFF_FFFF_FFFF_FF) >> 40, ((w32(a, b, c, d) as u128) << 70) / 12345, (w32(a, b, c, d) as u128 * u64::MAX as u128) % 1_000_007, (a as i128 - 300) as u64, ((a as i128 - 300) >> 3) as i64,
    w32(a, b, c, d) / 1000, w32(a, b, c, d) % 1000, w32(a, b, c, d) as u64 / 100_000_000, (w32(a, b, c, d) as i32) / 58, (w32(a, b, c, d) as i32) % 58, w32(a, b, c, d) & 0x00ff_f000, w32(a, b, c, d) | 0x8000_0001, w32(a, b, c, d) ^ 0xffff_0000, !w32(a, b, c, d), (w32(a, b, c, d) as i32).wrapping_neg(),
    u16::from_be_bytes([a, b]) as i16 as i64, a as i8 as i64, a as i8 as u32, w32(a, b, c, d) as u16 as i16 as i32, (a as char).to_ascii_uppercase() as u32, (a as char).to_digit(16).unwrap_or(99), a.is_ascii_alphanumeric(), a.to_ascii_lowercase(), (a as char).is_ascii_punctuation(),
    a < b, a <= b, (a as i8) < (b as i8), (a as i8) >= (b as i8), (a, b) < (c, d), [a, b] == [c, d], [a, b, c] > [b, c, d], a == b || c == d && a != c, a.cmp(&b) as i8, (a as i8).cmp(&(b as i8)) as i8, (a ^ b) & 1 == 0,
    [3u8, 1, 4, 1, 5, 9, 2, 6][a as usize % 8], b"0123456789abcdef"[(a >> 4) as usize], [a, b, c, d][(a & 3) as usize], { let mut v = [a, b, c, d]; v[(b & 3) as usize] = 7; w32(v[0], v[1], v[2], v[3]) }, { let mut v = [a, b, c, d]; v.swap((a & 3) as usize, (b & 3) as usize); w32(v[0], v[1], v[2], v[3]) }, { let mut v = vec![a, b, c, d]; v.sort(); v[1] }, { let mut v = vec![a, b, c]; v.dedup(); v.len() }, [a, b, c, d].iter().filter(|x| **x > 100).count(), [a, b, c, d].iter().position(|x| *x == 9).unwrap_or(77), [a, b, c, d].iter().fold(0u32, |h, x| (h ^ *x as u32).wrapping_mul(0x0100_0193)), [a, b, c, d].iter().map(|x| *x as u32).max().unwrap(),
    (a as f64 / 1e8).to_bits(), (w32(a, b, c, d) as f64 / 1e8).to_bits(), ((w32(a, b, c, d) as u64 * 1000) as f64).to_bits(), (a as f64 * 0.1 + b as f64).to_bits(), (a as f64 - b as f64).abs().to_bits(), (a as f64 / 3.0) as u32, (a as f64 * -1.5) as i32, (a as f64 / 7.0).floor().to_bits(), (a as f64 / 7.0).ceil().to_bits(), (a as f64 / 2.0).round().to_bits(), (a as f64 / 2.0).round_ties_even().to_bits(), (a as f64 / 7.0).trunc() as u8, (a as f32 / 3.0).to_bits(), (a as f64).sqrt() as u32, (a as f64) < (b as f64), (a as f64) == (b as f64), (a as f64).max(b as f64).to_bits(), (a as f64).min(9.0) as u8, f64::from_bits((a as u64) << 52).is_nan(), (a as f64 / 16.0).fract() == 0.5, (a as f64).total_cmp(&(b as f64)) as i8, (a as f64 - 100.0) as u8, (a as f64 * 1e300 * 1e300) as u64,
    match a { 0..=9 => 1, 10..=0x1f => 2, b'a'..=b'f' => 3, n if n > 200 => 4, _ => 5 }, match (a & 1, b & 1) { (0, 0) => 10, (1, _) => 20, _ => 30 }, if a as u16 + b as u16 > 255 { c } else { d }, { let mut n = a & 15; let mut r = 0u32; while n > 0 { r = r * 3 + n as u32; n -= 1; } r }, { let mut x = a; let mut k = 0; while x != 0 { x &= x - 1; k += 1; } k }, (a as u32).checked_shl(b as u32).unwrap_or(5), (a as u32).isqrt(), (a as u32 + 1).ilog2(), (a as u32 + 1).ilog10(), (a as u64).next_power_of_two(), a.div_ceil(7), (a as u32).pow(3), (a as usize).next_multiple_of(12),
    std::str::from_utf8(&[a, b]).is_ok(), std::str::from_utf8(&[a, b, c]).map_or_else(|e| e.valid_up_to(), |_| 9), char::from_u32(w32(a, b, c & 31, 0)).is_some(), [a, b, c, d].starts_with(&[0x30]), u16::from_le_bytes([a, b]).is_power_of_two(), u8::try_from(a as u32 * 2).is_ok(), i8::try_from(a).unwrap_or(-1), u32::from_str_radix(std::str::from_utf8(&[b'0' + (a & 7), b'0' + (b & 7)]).unwrap(), 8).unwrap(), std::hint::black_box(a) as u32 * 257,
}
harness!(idioms_symbolic, {
    let k = vrt::concretize(choose("term", TERMS.len()) as u64) as usize;
    let [a, b, c, d] = [any_u8("a"), any_u8("b"), any_u8("c"), any_u8("d")];
    // values the solver has to find; the term itself stays a term
    match vrt::concretize(choose("values", 6) as u64) {
        0 => assume(a.wrapping_mul(3) ^ b == 0x5a && c > d && d > 2),
        1 => assume(a & 0x8f == 0x87 && b & 0xf0 == 0x30 && c ^ d == 0x81),
        2 => assume(a == b && c.wrapping_add(d) == 17 && a > 100),
        3 => assume(a < 10 && b > 240 && c & 1 == 1 && d | c == 0xff),
        4 => assume(a ^ c == 0xff && b ^ d == 0x0f && a % 7 == 3),
        _ => assume((a as u32 * b as u32) % 251 == 77 && c == a >> 1),
    }
    let r = TERMS[k](a, b, c, d);
    observe("result", &r.to_le_bytes());
    reach("idiom");
});
harness!(idioms_files, {
    use vstd::fs::{self, File, OpenOptions};
    vrt::fs::mkdir("/vfs/d");
    vrt::fs::put("/vfs/d/a", (0..200u8).collect());
    let mut r = String::new();
    match choose("idiom", 16) {
        12 => {
            fs::copy("/vfs/d/a", "/vfs/d/z").unwrap();
            write!(r, "{:?}", vrt::fs::get("/vfs/d/z"))
        }
        13 => {
            vrt::fs::symlink("a", "/vfs/d/l");
            vrt::fs::symlink("/vfs/none", "/vfs/d/m");
            let mut v: Vec<_> = fs::read_dir("/vfs/d").unwrap().map(|e| e.unwrap()).map(|e| (e.file_name().into_string().unwrap(), e.file_type().unwrap().is_symlink(), e.path().is_file(), e.path().is_symlink(), e.metadata().unwrap().is_file())).collect();
            v.sort();
            write!(r, "{:?} {:?} {:?} {:?}", v, fs::read("/vfs/d/l").map(|v| v.len()), fs::read_link("/vfs/d/l"), fs::canonicalize("/vfs/d/l"))
        }
        14 => {
            vrt::fs::symlink("/vfs/d", "/vfs/e");
            fs::write("/vfs/e/n", b"abc").unwrap();
            fs::remove_file("/vfs/e/a").unwrap();
            write!(r, "{:?} {:?} {:?} {:?}", vrt::fs::get("/vfs/d/n"), fs::metadata("/vfs/e").unwrap().is_dir(), fs::symlink_metadata("/vfs/e").unwrap().is_dir(), fs::read_dir("/vfs/e").unwrap().count())
        }
        15 => {
            let m = fs::metadata("/vfs/d/a").unwrap();
            let mut q = m.permissions();
            q.set_readonly(true);
            write!(r, "{:?} {:?}", m.is_file(), fs::set_permissions("/vfs/d/a", q).is_ok())
        }
        0 => write!(r, "{:?}", fs::read("/vfs/d/a").map(|v| v.len())),
        1 => write!(r, "{:?}", fs::read_to_string("/vfs/d/none").map_err(|e| e.kind())),
        2 => {
            let mut f = File::open("/vfs/d/a").unwrap();
            f.seek(SeekFrom::Start(10)).unwrap();
            let mut b = BufReader::with_capacity(16, f);
            let mut v = [0; 40];
            b.read_exact(&mut v).unwrap();
            b.seek_relative(5).unwrap();
            let mut w = [0; 3];
            b.read_exact(&mut w).unwrap();
            write!(r, "{} {:?} {:?}", v[39], w, b.stream_position().unwrap())
        }
        3 => {
            use std::os::unix::fs::FileExt;
            let f = File::open("/vfs/d/a").unwrap();
            let mut v = [0; 4];
            f.read_exact_at(&mut v, 100).unwrap();
            write!(r, "{:?} {:?}", v, f.metadata().unwrap().len())
        }
        4 => {
            let mut f = BufWriter::new(File::create("/vfs/d/b").unwrap());
            f.write_all(&[1; 300]).unwrap();
            f.flush().unwrap();
            f.get_ref().sync_data().unwrap();
            let f = f.into_inner().unwrap();
            f.sync_all().unwrap();
            write!(r, "{:?}", vrt::fs::get("/vfs/d/b").map(|v| v.len()))
        }
        5 => {
            let mut f = OpenOptions::new().read(true).write(true).create(true).truncate(false).open("/vfs/d/a").unwrap();
            f.seek(SeekFrom::End(-2)).unwrap();
            f.write_all(&[9, 9, 9]).unwrap();
            f.set_len(150).unwrap();
            write!(r, "{:?}", vrt::fs::get("/vfs/d/a").map(|v| v.len()))
        }
        6 => {
            let mut f = OpenOptions::new().append(true).open("/vfs/d/a").unwrap();
            f.write_all(&[9, 9, 9]).unwrap();
            write!(r, "{:?} {:?}", vrt::fs::get("/vfs/d/a").map(|v| v.len()), OpenOptions::new().write(true).create_new(true).open("/vfs/d/a").map_err(|e| e.kind()).err())
        }
        7 => {
            fs::rename("/vfs/d/a", "/vfs/d/c").unwrap();
            write!(r, "{:?} {:?} {:?}", std::path::Path::new("/vfs/d/a").exists(), fs::metadata("/vfs/d/c").map(|m| (m.len(), m.is_file(), m.is_dir())).unwrap(), fs::remove_file("/vfs/d/c").is_ok())
        }
        8 => {
            let mut v: Vec<_> = fs::read_dir("/vfs/d").unwrap().map(|e| e.unwrap()).map(|e| (e.file_name().into_string().unwrap(), e.path().extension().is_some(), e.file_type().unwrap().is_file(), e.metadata().unwrap().len())).collect();
            v.sort();
            write!(r, "{:?}", v)
        }
        9 => {
            fs::write("/vfs/d/e", b"text\n").unwrap();
            write!(r, "{:?} {:?}", fs::read_to_string("/vfs/d/e"), File::open("/vfs/d").and_then(|d| d.sync_all()).is_ok())
        }
        10 => {
            let mut f = File::open("/vfs/d/a").unwrap();
            let mut v = Vec::new();
            let n = std::io::Read::by_ref(&mut f).take(30).read_to_end(&mut v).unwrap();
            let mut s = Vec::new();
            f.read_to_end(&mut s).unwrap();
            write!(r, "{} {} {}", n, v.len(), s.len())
        }
        _ => {
            let p = std::path::Path::new("/vfs/d").join("a").with_extension("tmp");
            write!(r, "{:?} {:?} {:?} {:?}", p, p.file_name(), p.parent(), p.file_stem())
        }
    }
    .unwrap();
    observe("result", r.as_bytes());
    reach("idiom");
});
harness!(idioms_threads, {
    use vstd::sync::mpsc::{channel, sync_channel, RecvTimeoutError, TryRecvError};
    use vstd::thread;
    sched::set_preemptions(0);
    let mut r = String::new();
    match choose("idiom", 9) {
        0 => {
            let v = vec![1u32, 2, 3, 4, 5];
            let s: u32 = thread::scope(|s| {
                let h: Vec<_> = v.chunks(2).map(|c| s.spawn(move || c.iter().sum::<u32>())).collect();
                h.into_iter().map(|h| h.join().unwrap()).sum()
            });
            write!(r, "{}", s)
        }
        1 => {
            let h = thread::Builder::new().name("worker".into()).spawn(|| thread::current().name().map(String::from)).unwrap();
            write!(r, "{:?}", h.join().unwrap())
        }
        2 => {
            let (t, x) = sync_channel(1);
            let h = thread::spawn(move || {
                for k in 0..4 {
                    t.send(k).unwrap();
                }
            });
            let v: Vec<i32> = x.iter().collect();
            h.join().unwrap();
            write!(r, "{:?}", v)
        }
        3 => {
            let (t, x) = channel::<u8>();
            let a = x.try_recv();
            t.send(1).unwrap();
            let b = x.recv_timeout(std::time::Duration::from_millis(1));
            drop(t);
            write!(r, "{:?} {:?} {:?} {}", a, b, x.recv(), matches!(a, Err(TryRecvError::Empty)))
        }
        4 => {
            let p = Arc::new((Mutex::new(0), vstd::sync::Condvar::new()));
            let q = p.clone();
            let h = thread::spawn(move || {
                *q.0.lock().unwrap() = 3;
                q.1.notify_all();
            });
            let mut g = p.0.lock().unwrap();
            while *g == 0 {
                g = p.1.wait(g).unwrap();
            }
            let n = *g;
            drop(g);
            h.join().unwrap();
            write!(r, "{}", n)
        }
        5 => {
            let h = thread::spawn(|| -> u8 { panic!("no") });
            write!(r, "{:?}", h.join().map_err(|e| e.downcast_ref::<&str>().map(|s| s.to_string())))
        }
        6 => {
            let m = Arc::new(Mutex::new(1));
            let n = m.clone();
            let _ = thread::spawn(move || {
                let _g = n.lock().unwrap();
                panic!("poison")
            })
            .join();
            let v = *m.lock().unwrap_or_else(|e| e.into_inner());
            write!(r, "{:?} {:?}", m.is_poisoned(), v)
        }
        7 => {
            let b = Arc::new(vstd::sync::Barrier::new(2));
            let c = b.clone();
            let h = thread::spawn(move || c.wait().is_leader());
            let l = b.wait().is_leader();
            write!(r, "{}", l ^ h.join().unwrap())
        }
        _ => {
            let n = Arc::new(AtomicUsize::new(0));
            let h: Vec<_> = (0..3)
                .map(|_| {
                    let n = Arc::clone(&n);
                    thread::spawn(move || n.fetch_add(1, Ordering::SeqCst))
                })
                .collect();
            let mut v: Vec<_> = h.into_iter().map(|h| h.join().unwrap()).collect();
            v.sort();
            write!(r, "{:?} {}", v, thread::available_parallelism().is_ok())
        }
    }
    .unwrap();
    observe("result", r.as_bytes());
    reach("idiom");
});

// A table as large as the index of the model needs, against an ordered one.
harness!(idioms_maps, {
    use std::collections::BTreeMap as Oracle;
    let n = [10u16, 64, 130][vrt::concretize(choose("size", 3) as u64) as usize];
    let mut m: HashMap<u16, u32> = HashMap::new();
    let mut o: Oracle<u16, u32> = Oracle::new();
    for k in 0..n {
        let k = k.wrapping_mul(7919);
        m.insert(k, k as u32 * 3);
        o.insert(k, k as u32 * 3);
    }
    let s = any_u16("key");
    let t = any_u16("other key");
    // present, absent, and made present by an operation
    let few = |x: u16| x == 7919 || x == 7920 || x == 2 || x == 6 * 7919;
    assume(few(s) & few(t));
    for step in 0..2 {
        match vrt::concretize(choose("operation", 8) as u64) {
            0 => check(m.insert(s, 5) == o.insert(s, 5), "insert"),
            1 => check(m.remove(&s) == o.remove(&s), "remove"),
            2 => {
                *m.entry(t).or_insert(1) += 1;
                *o.entry(t).or_insert(1) += 1;
            }
            3 => {
                m.retain(|k, _| k % 3 != 0 || *k == t);
                o.retain(|k, _| k % 3 != 0 || *k == t);
            }
            4 => {
                for k in 0..n {
                    check(m.remove(&(k * 2)) == o.remove(&(k * 2)), "remove");
                }
            }
            5 => {
                let c = m.clone();
                for (k, v) in c {
                    m.insert(k.wrapping_add(1), v);
                }
                let c = o.clone();
                for (k, v) in c {
                    o.insert(k.wrapping_add(1), v);
                }
                // later entries may have replaced earlier ones
                for (k, v) in o.iter_mut() {
                    m.insert(*k, *v);
                }
            }
            6 => {
                if let Some(v) = m.get_mut(&t) {
                    *v ^= 1;
                }
                if let Some(v) = o.get_mut(&t) {
                    *v ^= 1;
                }
                check(m.get(&s) == o.get(&s), "get");
            }
            _ => {
                if step == 0 {
                    m.clear();
                    o.clear();
                } else {
                    m = m.drain().collect();
                }
            }
        }
    }
    check(m.len() == o.len(), "length");
    check(m.get(&s) == o.get(&s) && m.contains_key(&t) == o.contains_key(&t), "get");
    for (k, v) in &o {
        check(m.get(k) == Some(v), "every entry");
    }
    let mut v: Vec<_> = m.into_iter().collect();
    check(v.len() == o.len(), "length");
    for (k, x) in v.drain(..) {
        check(o.get(&k) == Some(&x), "every entry");
    }
    reach("idiom");
});
