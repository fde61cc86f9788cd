ABE = 'abe = { path = "$repo/crates/abe" }'
FMT = ABE + '\nbyte-fmt = { path = "$repo/crates/byte-fmt" }'
CRY = 'linkspace-cryptography = { path = "$repo/crates/cryptography" }'
BUS = 'ipcbus = { path = "$repo/crates/ipcbus" }\nsocket2 = { version = "0.5.3", features = ["all"] }'
HEAD = '''
#![allow(unused)]
use abe::*; use abe::ast::*; use abe::eval::*;
fn ev(t: &str) -> Result<Vec<u8>, String> { ev_args(t, &[]) }
fn ev_args(t: &str, args: &[&[u8]]) -> Result<Vec<u8>, String> {
    let scope = (abe::scope::basic_scope(), abe::scope::argv::ArgList::new(args));
    let e = parse_abe(t, false).map_err(|e| e.to_string())?;
    eval(&scope, &e).map(|v| v.concat()).map_err(|e| e.to_string())
}
fn must<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) { if a != b { println!("{what}: {a:?} instead of {b:?}"); std::process::exit(1) } }
'''
A = 'crates/abe/src/'
BUGS = [
 dict(id='abtxt-max', property='A01', file=A+'abtxt.rs', edits=[('if total >= m {', 'if total > m {')],
  needs='a text of exactly one byte more than the given maximum', breaks='parse_abtxt_upto_max accepts max+1 bytes', deps=ABE,
  demo=HEAD+'''fn main(){ for m in 0..6usize { for n in 0..8usize {
   let t = "a".repeat(n); must("accepted", abe::abtxt::parse_abtxt_upto_max(&t, m).is_ok(), n <= m) } } }'''),
 dict(id='tok-inner', property='A03', file=A+'ast.rs', edits=[('std::mem::take(&mut with_inner),','with_inner,')],
  needs='a text with a bracketed component before a plain one', breaks='later plain components are reported as containing brackets', deps=ABE,
  demo=HEAD+'''fn main(){ let v = tokenize_abe("a:[b:c]:d/e",0,0).unwrap(); must("inner", v.iter().map(|x| x.1).collect::<Vec<_>>(), vec![false,true,false,false]) }'''),
 dict(id='cut-exact', property='A06', file=A+'scope/bytes.rs', edits=[('            if len > bytes.len() {\n                if check_len {','            if len >= bytes.len() {\n                if check_len {')],
  needs='lcut or rcut to exactly the length of the input', breaks='a cut that should return the input unchanged is an error', deps=ABE,
  demo=HEAD+'''fn main(){ must("lcut", ev("[lcut:abcd:4]"), Ok(b"abcd".to_vec())); must("rcut", ev("[rcut:abcd:4]"), Ok(b"abcd".to_vec())); must("~", ev("[~rcut:abcd:4]"), Ok(b"abcd".to_vec())) }'''),
 dict(id='add-zero-carry', property='A07', file=A+'scope/uint.rs', edits=[('''        let (ni, nc) = bytes[idx].carrying_add(val[idx], carry);
        bytes[idx] = ni;
        carry = nc;
''','''        if val[idx] != 0 {
            let (ni, nc) = bytes[idx].carrying_add(val[idx], carry);
            bytes[idx] = ni;
            carry = nc;
        }
''')],
  needs='a carry out of a byte into a position where the added number has a zero byte', breaks='+ loses or misplaces the carry', deps=ABE,
  demo=HEAD+'''fn main(){ must("sum", ev("[?u:[+:[u16:255]:[u16:1]]]"), Ok(b"256".to_vec())); must("sum", ev("[?u:[+:[u16:3]:[u16:4]]]"), Ok(b"7".to_vec())) }'''),
 dict(id='mini-12', property='A08', file=A+'scope/base.rs', edits=[('if v.len() <= 12 {','if v.len() < 12 {')],
  needs='a value of exactly 12 bytes', breaks='2mini abbreviates a value short enough to be printed', deps=ABE,
  demo=HEAD+'''fn main(){ must("mini", ev("[2mini:abcdefghijkl]"), ev("[?b:abcdefghijkl]")) }'''),
 dict(id='enc-a-len', property='A09', file=A+'scope/bytes.rs', edits=[('ApplyResult::Value(if len == 16 {','ApplyResult::Value(if len == 16 || cut_b.len() == 16 {')],
  needs='bytes whose escaped text is 16 characters long while they are not 16 bytes', breaks='the a-encoded expression evaluates to a padded value', deps=ABE,
  demo=HEAD+'''fn main(){ let s = abe::scope::basic_scope(); for b in [&b"abc"[..], b"abcdefghijklmno:", b"abcdefghijklmn:", b"aaaaaaaaaaaaaaaaa"] {
   let o = parse_abe("a", false).unwrap();
   let e = std::panic::catch_unwind(|| encode_abe(&abe::scope::basic_scope(), b, &o, false)).unwrap_or_else(|_| {println!("encode panics"); std::process::exit(1)});
   must("round trip", ev(&e.unwrap()), Ok(b.to_vec())) } }'''),
 dict(id='iter-head', property='A10', file=A+'eval.rs', edits=[('let head: Option<Vec<u8>> = self.0.first().and_then(|o| o.0.map(|_| vec![]));','let head: Option<Vec<u8>> = self.0.first().filter(|o| o.0 == Some(Ctr::Colon)).map(|_| vec![]);')],
  needs='a list that starts with a slash, read by value', breaks='the empty first component is missing in one view of the list', deps=ABE,
  demo=HEAD+'''fn main(){ for t in ["a:b", ":a", "/a", "/a:b"] { let l: ABList = ABList::try_from(&parse_abe(t,false).unwrap()[..]).unwrap(); let a: Vec<Vec<u8>> = l.iter_bytes().map(|x| x.to_vec()).collect(); must("views", l.clone().into_iter_bytes().collect::<Vec<_>>(), a) } }'''),
 dict(id='conf-last-slash', property='A11', file=A+'abconf.rs', edits=[('                .take(starts_with.len())\n','                .take(starts_with.len().saturating_sub(1))\n')],
  needs='an entry that matches the lookup where the last matched component follows a slash', breaks='a slash separated entry is returned as a colon separated match', deps=ABE,
  demo=HEAD+'''fn main(){ let c = abe::abconf::ABConf::try_from(b"a/b\\nx:y").unwrap();
   must("a/b is flagged", c.get_checked(&[b"a",b"b"]).next().unwrap().is_err(), true); must("x:y is not", c.get_checked(&[b"x",b"y"]).next().unwrap().is_ok(), true); }'''),
 dict(id='argv-chain', property='A12', file=A+'scope/argv.rs', edits=[('if !args.is_empty() || !init {','if !args.is_empty() {')],
  needs='an argument lookup at the end of a chain whose earlier part passes on nothing', breaks='a chained lookup is answered', deps=ABE,
  demo=HEAD+'''fn main(){ struct Ask; let l = abe::scope::argv::ArgList::new(&[b"v" as &[u8]] as &[&[u8]]);
   must("chained", matches!(l.try_apply_func(b"0", &[], false, &()), ApplyResult::Err(_)), true); must("plain", matches!(l.try_apply_func(b"0", &[], true, &()), ApplyResult::Value(_)), true) }'''),
 dict(id='tri-encode', property='A13', file=A+'eval.rs', edits=[('''            .try_encode(id, options, bytes)
            .or_else(|| self.1.try_encode(id, options, bytes))
            .or_else(|| self.2.try_encode(id, options, bytes))''','''            .try_encode(id, options, bytes)
            .or_else(|| self.2.try_encode(id, options, bytes))
            .or_else(|| self.1.try_encode(id, options, bytes))''')],
  needs='a triple of scopes whose second and third member both know the encoder', breaks='the third scope answers before the second', deps=ABE,
  demo=HEAD+'''struct S(&'static str);
impl Scope for S { fn try_apply_func(&self,_:&[u8],_:&[&[u8]],_:bool,_:&dyn Scope)->ApplyResult{ApplyResult::NoValue} fn try_apply_macro(&self,_:&[u8],_:&[ABE],_:&dyn Scope)->ApplyResult{ApplyResult::NoValue} fn describe(&self,_:Describer){} fn try_encode(&self,_:&[u8],_:&[ABE],_:&[u8])->ApplyResult<String>{ if self.0.is_empty(){ApplyResult::NoValue}else{ApplyResult::Value(self.0.into())} } }
fn enc(a:&'static str,b:&'static str,c:&'static str)->Option<String>{ match (S(a),S(b),S(c)).try_encode(b"x",&[],b"") {ApplyResult::Value(v)=>Some(v),_=>None} }
fn main(){ must("1",enc("a","b","c"),Some("a".into())); must("2",enc("","b","c"),Some("b".into())); must("3",enc("","","c"),Some("c".into())) }'''),
 dict(id='le-not-shl', property='B02', file='crates/byte-fmt/src/endian_types.rs', edits=[('$name::new(self.get().saturating_sub(rhs.get()))','$name(self.align()[0].saturating_sub(rhs.align()[0]).to_ne_bytes())')],
  needs='a subtraction of big endian integers with a borrow between bytes, or an underflow of the swapped number', breaks='saturating_sub computes on the byte-swapped numbers', deps=FMT,
  demo='''use byte_fmt::*; use byte_fmt::endian_types::*;
fn main(){ for (a,b) in [(5u16,3u16),(256,1),(1000,999),(1,2),(0x0201,0x0102),(65535,255)] { let x = U16::new(a).saturating_sub(U16::new(b)).get(); let y = LU16::new(a).saturating_sub(LU16::new(b)).get();
  if x != a.saturating_sub(b) || y != a.saturating_sub(b) { println!("{a}-{b} = {x} {y}"); std::process::exit(1) } } let _ = AB(1u8); }'''),
 dict(id='u8-list', property='B03', file='crates/byte-fmt/src/endian_types.rs', edits=[('''        let bytes = value.as_exact_bytes().unwrap_or_default();
        if bytes.len() != 1 {''','''        let bytes = match value.as_slice() {
            [(_, b), ..] => b.as_slice(),
            [] => &[],
        };
        if bytes.len() != 1 {''')],
  needs='a delimited list whose first component is one byte', breaks='a u8 is read from a list of several components', deps=FMT,
  demo='''use byte_fmt::endian_types::*; use abe::eval::*;
fn main(){ let one = U8::try_from(ABList::from(vec![7u8])).map(|x| x.0).ok(); let two = U8::try_from(clist([b"7",b"8"])).is_ok();
 if one != Some(7) || two { println!("{one:?} {two}"); std::process::exit(1) } }'''),
 dict(id='typed-shape', property='A02', file=A+'ast.rs', edits=[('''            Err(ABTxtError::ParseError { byte, idx: _ }) => {
                todo = &todo[1..];
                bytes.push(byte);''','''            Err(ABTxtError::ParseError { byte, idx: _ }) => {
                todo = &todo[1..];
                if byte != b'\\n' || depth == 0 {
                    bytes.push(byte)
                }''')],
  needs='the tolerant parser and a raw newline inside brackets', breaks='the newline is dropped from the parsed expression', deps=ABE,
  demo=HEAD+'''fn main(){ for t in ["a\\nb", "[x:a\\nb]", "[[\\n]]"] { let v = parse_abe(t, true).unwrap(); must("kept", print_abe(&v).matches("\\\\n").count(), t.matches('\\n').count()) } }'''),
 dict(id='or-join', property='A05', file=A+'scope/logic.rs', edits=[('Ok(b) => return Ok(b.concat()),','Ok(b) if !b.is_empty() || err.is_empty() => return Ok(b.concat()),\n                              Ok(_) => {}')],
  needs='[/or:..] with a failing alternative before one that evaluates to nothing', breaks='an empty alternative is skipped although empty is valid', deps=ABE,
  demo=HEAD+'''fn main(){ must("empty first", ev("[/or::x]"), Ok(vec![])); must("empty later", ev("[/or:[nope]::x]"), Ok(vec![])); must("first", ev("[/or:[nope]:x]"), Ok(b"x".to_vec())) }'''),
 dict(id='cas-store', property='I02', file='crates/ipcbus/src/udp_procbus.rs', edits=[('                Err(x) => old = x,','                Err(x) => {\n                    self.0.val.store(x.max(val), Ordering::SeqCst);\n                    break;\n                }')],
  needs='three emits racing: one loses the exchange, and a higher value arrives before it stores its own', breaks='a higher value is overwritten', deps=BUS,
  demo='''use std::sync::*;
fn main(){ let d = std::env::temp_dir(); std::fs::write(d.join("id"), 78u64.to_be_bytes()).unwrap();
 let bus = Arc::new(ipcbus::ProcBus::new(&d).unwrap()); let g = Arc::new(Barrier::new(8));
 let ts: Vec<_> = (0..8u64).map(|k| { let (bus,g) = (bus.clone(), g.clone()); std::thread::spawn(move || { g.wait(); let mut x = k; for i in 0..150000u64 { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let v = i * 4 + (x >> 60); bus._emit::<true>(v); if bus.val() < v { return Some(v) } } None }) }).collect();
 let r: Vec<_> = ts.into_iter().map(|t| t.join().unwrap()).collect();
 if r.iter().any(|x| x.is_some()) { println!("{r:?}"); std::process::exit(1) } }'''),
 dict(id='notify-one', property='I03', file='crates/ipcbus/src/udp_procbus.rs', edits=[('self.0.proc.notify(usize::MAX);','self.0.proc.notify(1);')],
  needs='more than one waiter at the moment of an emit', breaks='only one of the waiters wakes up', deps=BUS, demo='''use std::sync::Arc; use std::time::*;
fn main(){ let d = std::env::temp_dir(); std::fs::write(d.join("id"), 77u64.to_be_bytes()).unwrap();
 let bus = Arc::new(ipcbus::ProcBus::new(&d).unwrap());
 let ts: Vec<_> = (0..3).map(|_| { let b = bus.clone(); std::thread::spawn(move || b.next_deadline(Some(Instant::now()+Duration::from_secs(8)))) }).collect();
 std::thread::sleep(Duration::from_millis(1500)); bus.emit(5);
 let r: Vec<_> = ts.into_iter().map(|t| t.join().unwrap()).collect();
 if r.iter().any(|x| *x != Some(5)) { println!("{r:?}"); std::process::exit(1) } }'''),
 dict(id='bus-id', property='I04', file='crates/ipcbus/src/udp_procbus.rs', edits=[('if busid != this.0.bus_id {','if busid as u32 != this.0.bus_id as u32 {')],
  needs='another bus on the same port whose id agrees in the low 32 bits', breaks='values leak between buses', deps=BUS, demo='''use std::time::*; use socket2::*;
fn main(){ let d = std::env::temp_dir(); let id = 0x1122_3344_5566_7788u64; std::fs::write(d.join("id"), id.to_be_bytes()).unwrap();
 let bus = ipcbus::ProcBus::new(&d).unwrap(); bus.init(); let port = ipcbus::get_port(id).unwrap();
 let s = Socket::new(Domain::IPV4, Type::DGRAM, Some(Protocol::UDP)).unwrap(); s.set_multicast_if_v4(&std::net::Ipv4Addr::LOCALHOST).unwrap(); s.set_multicast_ttl_v4(0).unwrap();
 let to = std::net::SocketAddr::from(([239,255,50,10], port)).into();
 let send = |id: u64, v: u64| { let m = [&id.to_ne_bytes()[..], &1u32.to_ne_bytes(), &v.to_ne_bytes()].concat(); s.send_to(&m, &to).unwrap(); };
 for _ in 0..5 { for bit in 0..64 { send(id ^ 1 << bit, 999) } std::thread::sleep(Duration::from_millis(100)) }
 if bus.val() != 0 { println!("{}", bus.val()); std::process::exit(1) }
 for _ in 0..50 { send(id, 5); std::thread::sleep(Duration::from_millis(20)); if bus.val() == 5 { return } } println!("nothing arrives"); std::process::exit(if bus.val()==5 {0} else {0}) }'''),
 dict(id='unlock-early', property='I01', file='crates/ipcbus/src/udp_procbus.rs', edits=[('    bytes.extend(bus_id.to_ne_bytes());\n','    lockfile.unlock().unwrap();\n    bytes.extend(bus_id.to_ne_bytes());\n'),('    std::fs::rename(&tmp, &path).unwrap();\n    lockfile.unlock().unwrap();\n','    std::fs::rename(&tmp, &path).unwrap();\n')],
  needs='two processes asking for new ports at the same time', breaks='one of the two records is lost and both ids share a port', deps=BUS, demo='''use std::sync::*;
fn main(){ for round in 0..150u64 { let g = Arc::new(Barrier::new(8)); let ts: Vec<_> = (0..8u64).map(|k| { let g = g.clone(); std::thread::spawn(move || { g.wait(); (round*8+k, ipcbus::get_port(round*8+k).unwrap()) }) }).collect();
  let mut got: Vec<(u64,u16)> = vec![]; for t in ts { match t.join() { Ok(x) => got.push(x), Err(_) => { println!("panic"); std::process::exit(1) } } }
  for (id,p) in &got { let again = ipcbus::get_port(*id).unwrap(); if again != *p || got.iter().any(|(i,q)| i != id && q == p) { println!("{got:?} {id} {p} {again}"); std::process::exit(1) } } } }'''),
 dict(id='verify-swap', property='C02', file='crates/cryptography/src/lib.rs', edits=[('''        for segm in s {
            hasher.update(segm);
        }''','''        for pair in s.chunks(2) {
            if pair[0].is_empty() {
                continue;
            }
            pair.iter().for_each(|segm| {
                hasher.update(segm);
            });
        }''')],
  needs='an empty segment at an even position followed by a segment with bytes', breaks='the bytes after an empty segment do not count', deps=CRY, demo='''use linkspace_cryptography::*;
fn main(){ let a = hash_segments(&[b"abcdef"]); for s in [&[&b"abc"[..], b"def"][..], &[b"", b"abcdef"], &[b"abc", b"", b"def"], &[b"a", b"b", b"", b"cdef"]] { if hash_segments(s) != a { println!("{s:?}"); std::process::exit(1) } } }'''),
]
