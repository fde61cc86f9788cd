PRE = r'''
#![allow(unused)]
use linkspace::{*, prelude::*, runtime::*, point::*, key::*};
use linkspace::runtime::cb::*;
use linkspace_common::prelude::{U8, U16, U32};
use linkspace_pkt as pkt;
use std::path::Path;
fn must<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) { if a != b { println!("{what}: {a:?} instead of {b:?}"); std::process::exit(1) } }
fn open(n: &str) -> Linkspace { lk_open(Some(Path::new(n)), true).unwrap() }
fn sp(c: &[&[u8]]) -> pkt::RootedSpaceBuf { pkt::RootedSpaceBuf::try_from_iter(c).unwrap() }
fn dom(s: &str) -> Domain { AB::try_from(s.as_bytes()).unwrap() }
fn lp(d: &str, c: &[&[u8]], links: &[Link], data: &[u8], t: u64) -> NetPktBox { lk_linkpoint(data, dom(d), PUBLIC, &sp(c), links, Some(Stamp::new(t))).unwrap() }
fn query(s: &[&str]) -> Query { lk_query_push(lk_query_parse(lk_query(&Q), s, ()).unwrap(), "domain", "=", &*dom("d")).unwrap() }
fn start(b: &[u8], p: &NetPktBox) -> usize { let h = p.hash(); b.windows(32).position(|w| w == &h[..]).unwrap() + 32 }
fn datas(lk: &Linkspace, q: &Query) -> Vec<Vec<u8>> { lk_process(lk); let mut v = vec![]; lk_get_all(lk, q, &mut |p| { v.push(p.data().to_vec()); false }).unwrap(); v }
'''
BUGS = [
 dict(id='pad-last', property='P01', file='crates/pkt/src/point_ptr.rs', edits=[('if !padding.iter().all(|o| *o == 255)', 'if !padding.iter().take(6).all(|o| *o == 255)')],
  needs='a point with exactly seven padding bytes of which only the last is not 0xff, and a hash made over it', breaks='malformed padding is accepted', kind='lib',
  demo=r'''fn main(){ for n in 0..16 { let p = lk_datapoint(&vec![7u8; n]).unwrap(); let b = p.as_netpkt_bytes().to_vec();
   let pad = b.iter().rev().take_while(|c| **c == 255).count();
   for k in 0..pad { let mut b = b.clone(); let l = b.len(); b[l - 1 - k] = 0;
     let start = start(&b, &p);
     let h = linkspace_cryptography::blake3_hash(&b[start..]); b[start - 32..start].copy_from_slice(h.as_bytes());
     must("read", lk_read(&b, true).is_ok(), false) } } }'''),
 dict(id='sig-cache', property='P03', file='crates/pkt/src/point_ptr.rs', edits=[('            let hash = linkspace_cryptography::blake3_hash(sans_signature);\n            signed\n                .validate(hash.as_bytes())\n                .map_err(|_| Error::InvalidSignature)?;', '''            thread_local! {
                static LAST: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![]);
            }
            let sbytes = &pbytes[pbytes.len() - size_of::<Signed>()..];
            if LAST.with(|l| l.borrow().as_slice() == sbytes) {
                return Ok(());
            }
            let hash = linkspace_cryptography::blake3_hash(sans_signature);
            signed
                .validate(hash.as_bytes())
                .map_err(|_| Error::InvalidSignature)?;
            LAST.with(|l| *l.borrow_mut() = sbytes.to_vec());''')],
  needs='a genuine keypoint is read, and next (on that thread) a point with changed content, its hash made again and the signature of the first', breaks='a forged keypoint is accepted', kind='lib',
  demo=r'''fn main(){ let k = lk_keygen(); let p = lk_keypoint(&k, b"pay 1 to bob", dom("d"), PUBLIC, &sp(&[b"a"]), &[], Some(Stamp::new(5))).unwrap();
   let b = p.as_netpkt_bytes().to_vec(); must("genuine", lk_read(&b, false).is_ok(), true);
   let mut f = b.clone(); let at = f.windows(5).position(|w| w == b"pay 1").unwrap(); f[at + 4] = b'9';
   let start = start(&b, &p);
   let h = linkspace_cryptography::blake3_hash(&f[start..]); f[start - 32..start].copy_from_slice(h.as_bytes());
   must("genuine", lk_read(&b, false).is_ok(), true);
   must("forged", lk_read(&f, false).is_ok(), false) }'''),
 dict(id='links-u8', property='P05', file='crates/pkt/src/netpkt/tree_order.rs', edits=[('links_len: U16::new(pkt.get_links().len() as u16)', 'links_len: U16::new(pkt.get_links().len() as u8 as u16)')],
  needs='a point with more than 255 links', breaks='the index entry of the point has another number of links', kind='lib',
  demo=r'''fn main(){ let lk = open("i"); for n in [3usize, 255, 256, 300, 700] { let l: Vec<Link> = (0..n).map(|i| Link::new("x", B64([i as u8; 32]))).collect();
   let p = lp("d", &[b"a"], &l, b"", 9 + n as u64); lk_save(&lk, &p).unwrap();
   let mut q = query(&[":mode:tree-asc"]); q = lk_query_push(q, "links_len", "=", &*U16::new(n as u16)).unwrap();
   must("found", datas(&lk, &q).len(), 1) } }'''),
 dict(id='branch-reset', property='D02', file='crates/core/src/env/lmdb/queries.rs', edits=[('                                return None;\n                            }\n                            yields = nth_find_set.iter(0);', '                                return None;\n                            }')],
  needs='a limit i_branch and a branch with more entries than it allows, followed by another branch', breaks='packets of later branches are missing from the result', kind='lib',
  demo=r'''fn main(){ let lk = open("i"); for k in 0..4u8 { for t in 0..5u64 { lk_save(&lk, &lp("d", &[&[b'a' + k]], &[], &[k, t as u8], 10 + t)).unwrap(); } }
   for m in ["tree-asc", "tree-desc"] { for n in 1..=6u32 { let mut q = query(&[&format!(":mode:{m}")]); q = lk_query_push(q, "i_branch", "<", &*U32::new(n)).unwrap();
     must(m, datas(&lk, &q).len(), 4 * n.min(5) as usize) } } }'''),
 dict(id='batch-offset', property='D01', file='crates/core/src/env/lmdb/save.rs', edits=[('                    assert!(val.len() == std::mem::size_of::<TreeValueBytes>());\n                }\n                at += 1;', '                    assert!(val.len() == std::mem::size_of::<TreeValueBytes>());\n                    at += 1;\n                }')],
  needs='one batch in which a datapoint comes before a linkpoint', breaks='the index entry of the linkpoint names the stamp of another packet', kind='lib',
  demo=r'''fn main(){ let lk = open("i"); let d = lk_datapoint(b"data").unwrap(); let l = lp("d", &[b"a"], &[], b"link", 5);
   must("new", lk_save_all(&lk, &[&l, &d]).unwrap(), 2);
   let d = lk_datapoint(b"data2").unwrap(); let l = lp("d", &[b"b"], &[], b"link2", 5);
   must("new", lk_save_all(&lk, &[&d, &l]).unwrap(), 2);
   must("tree", datas(&lk, &query(&[":mode:tree-asc"])), vec![b"link".to_vec(), b"link2".to_vec()]) }'''),
 dict(id='status-oldest', property='L08', file='crates/linkspace/src/conventions/status.rs', edits=[('last_request = last_request.max(*pkt.get_create_stamp());', 'last_request = *pkt.get_create_stamp();')],
  needs='two requests for one status that are both younger than the timeout', breaks='the watch ends with the older request, so a reply in time is not shown', kind='lib',
  demo=r'''use linkspace::conventions::status::*;
   fn main(){ let lk = open("i"); let st = LkStatus { domain: dom("d"), group: PUBLIC, objtype: b"t", instance: Some(b"i"), qid: b"q" };
   let mk = || lk_status_request(st).unwrap(); 
   lk_save(&lk, &mk()).unwrap(); std::thread::sleep(std::time::Duration::from_millis(2500)); let b = mk(); lk_save(&lk, &b).unwrap(); lk_process(&lk);
   let until = b.get_create_stamp().get() + 5_000_000;
   must("asked", lk_status_watch(&lk, st, Stamp::new(5_000_000), try_cb(|_p, _l| -> Result<(), ()> { Ok(()) })).unwrap(), false);
   let mut got = None; lk_list_watches(&lk, &mut |_id, q| { got = Some(lk_query_print(q, true)) });
   let mut w = lk_query(&Q); w = lk_query_push(w, "recv", "<", &*Stamp::new(until)).unwrap(); let w = lk_query_print(&w, true);
   must("until", got.unwrap().contains(w.trim()), true) }'''),
 dict(id='proof-no-links', property='L09', file='crates/common/src/protocols/handshake.rs', edits=[('''    let our_group = unicast_group(id.pubkey(), their_key);
    ensure!(
        theirs.get_links().iter().any(|r| r.ptr == mine_hash),''','''    let our_group = unicast_group(id.pubkey(), their_key);
    ensure!(
        theirs.get_links().iter().all(|r| r.ptr == mine_hash),''')],
  needs='a last message signed by the right key, in the right group and space, without any link', breaks='a message that does not answer the one of this session is accepted', kind='lib',
  demo=r'''use linkspace_common::protocols::handshake::*; use linkspace_common::protocols::unicast_group;
   fn main(){ let (c, s) = (lk_keygen(), lk_keygen()); let hop = |p: &NetPktBox| { let b = p.as_netpkt_bytes().to_vec(); let r = std::io::Cursor::new(b); linkspace_common::pkt_reader::NetPktDecoder { allow_private: true, ..linkspace_common::pkt_reader::NetPktDecoder::new(r) }.next().unwrap().unwrap() };
   let p0 = phase0_client_init(&c); let w0 = Phase0(hop(&p0.0)); let p1 = phase1_server_signs(&w0, &s, None).unwrap();
   let (p2, _) = phase2_client_signs(&p0, &Phase1(hop(&p1.0)), &c, None).unwrap();
   must("right", phase3_server_verify(&w0, &p1, &Phase2(hop(&p2.0)), &s).is_ok(), true);
   let b = &p2.0; let e = pkt::keypoint(*b.get_group(), *b.get_domain(), b.get_rooted_spacename(), &[], &[], now(), &c, ()).as_netbox();
   must("without a link", phase3_server_verify(&w0, &p1, &Phase2(hop(&e)), &s).is_ok(), false) }'''),
 dict(id='key-drop-group', property='L06', file='crates/common/src/protocols/lns/admin.rs', edits=[('.filter(|_| old_claim_pubkey != new_claim.pubkey().cloned())', '.filter(|_| old_claim_grp != new_claim.group().cloned())')],
  needs='a local name is set again with another key and the same group', breaks='the old key is still shown as having the name', kind='lib',
  demo=r'''use linkspace_common::protocols::lns::{self, name::Name};
   fn main(){ let lk = open("i"); let imp = lk.as_impl(); let name = |s: &str| Name::from(&[s.as_bytes(), b"local"]).unwrap();
   let ks: Vec<_> = (0..2).map(|_| { let k = lk_keygen(); (k.pubkey(), linkspace_argon2_identity::encrypt(&k, b"p", Some(linkspace_argon2_identity::INSECURE_COST))) }).collect();
   let set = |n: &str, k: usize| { lns::setup_special_keyclaim(imp, name(n), &ks[k].1, true).unwrap(); std::thread::sleep(std::time::Duration::from_millis(3)); lk_process(&lk); };
   let by = |k: usize| lns::reverse_lookup(imp, &lns::PUBKEY_TAG, ks[k].0).into_opt().transpose().ok().flatten().map(|c| c.name.to_string());
   set("x", 0); set("y", 0); set("y", 1); must("key 0 after it lost y", by(0), Some("x:local".to_string())); set("z", 0); set("x", 1); must("key 0 after it lost x", by(0), Some("z:local".to_string())); }'''),
 dict(id='drop-needs-match', property='D08', file='crates/core/src/matcher/mod.rs', edits=[('(test_ok && on_match(&mut e.ctx).is_break()) || test_finish.is_break();', 'test_ok && (on_match(&mut e.ctx).is_break() || test_finish.is_break());')],
  needs='a watch whose limits are reached by a packet that it is not called for (skipped by i)', breaks='the watch stays in the table although it can never be called again', kind='lib',
  demo=r'''use linkspace_core::{matcher::*, query::Query as CQ}; use std::ops::ControlFlow;
   fn main(){ let lk = open("i"); let mut q = query(&[":qid:w", ":mode:log-asc"]); q = lk_query_push(q, "recv", "<", &*Stamp::new(now().get() + 300_000)).unwrap();
   let w = q.clone(); lk_watch(&lk, &q, cb(|_: &dyn NetPkt, _: &Linkspace| false)).unwrap();
   let mut n = 0; lk_list_watches(&lk, &mut |_, _| n += 1); must("live", n, 1);
   std::thread::sleep(std::time::Duration::from_millis(400)); lk_save(&lk, &lp("d", &[b"c"], &[], b"later", 7)).unwrap(); lk_process(&lk);
   let mut n = 0; lk_list_watches(&lk, &mut |_, _| n += 1); must("after its time", n, 0) }'''),
 dict(id='trunc-20', property='I05', file='crates/ipcbus/src/udp_multicast.rs', edits=[('''u16::max_value() as usize + 4];
    let align = buf.as_ptr().align_offset(4);
    let buf = &mut buf[align..];''', '''24];
    let align = buf.as_ptr().align_offset(4);
    let buf = &mut buf[align..align + 20];''')],
  needs='a datagram that is longer than a message and starts like one', breaks='the cut off start of a malformed datagram is taken for a value', kind='bus', deps='',
  demo=r'''use std::time::*; use socket2::*;
fn main(){ let d = std::env::temp_dir(); let id = 0x1122_3344_5566_7788u64; std::fs::write(d.join("id"), id.to_be_bytes()).unwrap();
 let bus = ipcbus::ProcBus::new(&d).unwrap(); bus.init(); let port = ipcbus::get_port(id).unwrap();
 let s = Socket::new(Domain::IPV4, Type::DGRAM, Some(Protocol::UDP)).unwrap(); s.set_multicast_if_v4(&std::net::Ipv4Addr::LOCALHOST).unwrap(); s.set_multicast_ttl_v4(0).unwrap();
 let to = std::net::SocketAddr::from(([239,255,50,10], port)).into();
 let send = |more: usize, v: u64| { let m = [&id.to_ne_bytes()[..], &1u32.to_ne_bytes(), &v.to_ne_bytes(), &vec![0; more]].concat(); s.send_to(&m, &to).unwrap(); };
 for _ in 0..5 { for more in [1, 8, 20, 900] { send(more, 999) } std::thread::sleep(Duration::from_millis(100)) }
 if bus.val() != 0 { println!("{}", bus.val()); std::process::exit(1) }
 for _ in 0..50 { send(0, 5); std::thread::sleep(Duration::from_millis(20)); if bus.val() == 5 { return } } }'''),
 dict(id='verify-cache', property='C01', file='crates/cryptography/src/lib.rs', edits=[('''        schnorr::VerifyingKey::from_bytes(pubkey)?
            .verify_prehash(hash, &schnorr::Signature::try_from(signature.as_slice())?)
''', '''        thread_local! {
            static LAST: std::cell::Cell<Option<(PublicKey, Hash)>> = const { std::cell::Cell::new(None) };
        }
        let signature = schnorr::Signature::try_from(signature.as_slice())?;
        if LAST.get() == Some((*pubkey, *hash)) {
            return Ok(());
        }
        schnorr::VerifyingKey::from_bytes(pubkey)?.verify_prehash(hash, &signature)?;
        LAST.set(Some((*pubkey, *hash)));
        Ok(())
''')], needs='a signature is verified, and then another well formed one for the same key and message', breaks='a wrong signature is accepted', kind='lib',
  demo=r'''use linkspace_cryptography as c; fn main(){ let k = c::SigningKey::generate(); let o = c::SigningKey::generate(); let h = [3u8; 32]; let pk = k.pubkey_bytes();
   let s = c::sign_hash(&k, &h); let w = c::sign_hash(&o, &h);
   must("wrong", c::validate_signature(&pk, &w, &h).is_ok(), false);
   must("right", c::validate_signature(&pk, &s, &h).is_ok(), true);
   must("wrong after right", c::validate_signature(&pk, &w, &h).is_ok(), false) }'''),
 dict(id='digest-cache', property='C03', file='crates/argon2-identity/src/lib.rs', edits=[('''    let digest =
        argon2::hash_raw(password, &argon_param.salt, &config).map_err(|_| KeyError::BadData)?;
    let digest: [u8; 32] = digest.try_into().map_err(|_| KeyError::BadData)?;
''', '''    // deriving is slow, so keep the digest of the last key that was opened
    thread_local! {
        static LAST: std::cell::RefCell<Option<(String, usize, [u8; 32])>> = const { std::cell::RefCell::new(None) };
    }
    let known = LAST.with(|l| match &*l.borrow() {
        Some((k, n, d)) if k == enckey && *n == password.len() => Some(*d),
        _ => None,
    });
    let digest: [u8; 32] = match known {
        Some(d) => d,
        None => argon2::hash_raw(password, &argon_param.salt, &config)
            .map_err(|_| KeyError::BadData)?
            .try_into()
            .map_err(|_| KeyError::BadData)?,
    };
'''), ('''        return Err(KeyError::WrongPassword);
    }
    Ok(secret)
''', '''        return Err(KeyError::WrongPassword);
    }
    LAST.with(|l| *l.borrow_mut() = Some((enckey.to_string(), password.len(), digest)));
    Ok(secret)
''')], needs='a key was opened with its password, and then another password of the same length is tried for it', breaks='a wrong password opens the key', kind='lib',
  demo=r'''use linkspace_argon2_identity as a; fn main(){ let k = linkspace_cryptography::SigningKey::generate(); let e = a::encrypt(&k, b"right", Some(a::INSECURE_COST));
   must("wrong", a::decrypt(&e, b"wrong").is_ok(), false); must("right", a::decrypt(&e, b"right").is_ok(), true); must("wrong after right", a::decrypt(&e, b"wrong").is_ok(), false) }'''),
 dict(id='delim-exact', property='X01', file='crates/common/src/cli/reader.rs', edits=[('                .take(take.saturating_add(1))\n', '                .take(take)\n')],
  needs='a delimiter, and a record of exactly the number of bytes that fit', breaks='an empty point is made after the record', kind='lk',
  demo=r'''printf 'abcd,efgh,ij,abc,' > in
$lk data -n 4 -D , --data in > out || exit 1
n=$($lk pktf '[data:str];' < out | tr -d '\n')
[ "$n" = "abcd;efgh;ij;abc;" ] || { echo "got $n"; exit 1; }'''),
 dict(id='rewrite-old-space', property='X02', file='cli/linkspace/src/rewrite.rs', edits=[('calc_free_space(space, t.links, &[], key.is_some())', 'calc_free_space(t.rspace, t.links, &[], key.is_some())')],
  needs='rewrite with a new space of another length and new data that fits exactly', breaks='data that fits is refused, or data that does not is not handled as asked', kind='lk',
  demo=r'''head -c 70000 /dev/zero | tr '\0' x > big
$lk link d::/abcdefghijklmnopqrstuvwxyz --data-str a --write file:p
$lk rewrite skip --space /a -i --data big --data-overflow trim --write file:q < p || exit 1
a=$($lk pktf '[data_size:str]' < q)
$lk link d::/a --data big --data-overflow trim --data-reads 1 --write file:r
b=$($lk pktf '[data_size:str]' < r)
[ "$a" = "$b" ] || { echo "$a instead of $b"; exit 1; }'''),
 dict(id='abs-path', property='L07', file='crates/common/src/eval/file.rs', edits=[('.find(|v| !matches!(v, std::path::Component::Normal(_)))', '.find(|v| matches!(v, std::path::Component::ParentDir | std::path::Component::CurDir))')],
  needs='an absolute path', breaks='files outside of the files directory are read', kind='lib',
  demo=r'''fn main(){ let lk = open("i"); std::fs::write("secret", b"s3cret").unwrap(); let p = std::fs::canonicalize("secret").unwrap();
   must("absolute", lk.as_impl().files_data(&p, false).is_ok(), false) }'''),
 dict(id='hop-follow', property='L01', file='crates/common/src/runtime/handlers.rs', edits=[('''                    pkt.net_header
                        .flags
                        .remove(NetFlags::LINKED_IN_PREVIOUS_PKT);
                    self.inner.handle_pkt(&pkt, rx)?;
                }''', '''                    pkt.net_header
                        .flags
                        .remove(NetFlags::LINKED_IN_PREVIOUS_PKT);
                    if self.inner.handle_pkt(&pkt, rx).is_break() {
                        break;
                    }
                }''')], needs='a watch with follow whose callback breaks on a linked packet', breaks='the watch goes on after its callback ended it', kind='lib',
  demo=r'''use std::{cell::RefCell, rc::Rc};
   fn main(){ let lk = open("i"); let a = lp("d", &[b"a"], &[], b"linked", 5); let b = lp("d", &[b"b"], &[Link::new("x", a.hash())], b"from", 6);
   lk_save(&lk, &a).unwrap(); lk_process(&lk); let n = Rc::new(RefCell::new(vec![])); let m = n.clone();
   let mut q = query(&[":qid:w", ":follow", ":mode:log-asc"]); q = lk_query_push(q, "i_db", "<", &*U32::ZERO).unwrap();
   lk_watch(&lk, &q, cb(move |p: &dyn NetPkt, _: &Linkspace| { m.borrow_mut().push(p.data().to_vec()); p.data() == b"linked" })).unwrap();
   lk_save(&lk, &b).unwrap(); lk_process(&lk); lk_save(&lk, &lp("d", &[b"c"], &[], b"later", 7)).unwrap(); lk_process(&lk);
   must("called", { let v = n.borrow().clone(); v }, vec![b"from".to_vec(), b"linked".to_vec()]) }'''),
 dict(id='new-utf8', property='X05', file='crates/common/src/cli/keys.rs', edits=[('        key.utf8_password = false;\n', '')],
  needs='changing the password as utf8 with a new one that has a byte to escape, kept under the name', breaks='the change is refused (or the key is kept under another password)', kind='lk',
  demo=r'''export LK_DIR=$PWD/i
$lk init || exit 1
$lk key -u --password old --decrypt-cost 0 > k1 || exit 1
$lk key -u --password old --new-pass-str 'a/b:c' --overwrite --decrypt-cost 0 > k2 || { echo "password not changed"; exit 1; }
$lk key -u --password 'a/b:c' > k3 || exit 1
cmp k2 k3'''),
 dict(id='hop-wrap', property='L05', file='crates/pkt/src/netpkt/header.rs', edits=[('self.hop = self.hop.incr();', 'self.hop = U32::new(self.hop.get().wrapping_add(1));')],
  needs='a packet that was passed on the maximum number of times', breaks='the count of hops starts again', kind='lib',
  demo=r'''use linkspace_common::pkt_reader::NetPktDecoder;
   fn main(){ let p = lp("d", &[b"a"], &[], b"x", 5); let mut b = p; for h in [0u32, 1, 65535, u32::MAX - 1, u32::MAX] { b._net_header.hop = U32::new(h); let v = b.as_netpkt_bytes().to_vec();
   let g = NetPktDecoder::new(std::io::Cursor::new(v)).next().unwrap().unwrap(); must("hops", g._net_header.hop.get(), h.saturating_add(1)) } }'''),
 dict(id='hashes-gap', property='L03', file='crates/core/src/env/lmdb/get.rs', edits=[('idx.filter_map(move |p| hc.read_uniq(&p).ok().flatten())', 'idx.map_while(move |p| hc.read_uniq(&p).ok().flatten())')], needs='a list of hashes of which one that is not last is not stored', breaks='packets after the missing one are not shown', kind='lib',
  demo=r'''fn main(){ let lk = open("i"); let p: Vec<_> = (0..4u64).map(|i| lp("d", &[b"a"], &[], &[i as u8], 5 + i)).collect(); for x in &p[1..] { lk_save(&lk, x).unwrap(); }
   lk_process(&lk); let mut n = vec![]; lk_get_hashes(&lk, &[p[1].hash(), p[0].hash(), p[3].hash(), p[2].hash()], &mut |p| { n.push(p.data()[0]); false }).unwrap(); must("got", n, vec![1, 3, 2]) }'''),
 dict(id='bytes-nocheck', property='B04', file='crates/abe/src/convert.rs', edits=[('''        let abe = parse_abe_strict_b(s).map_err(ABEError::Parse)?;
        O::check(&abe).map_err(ABEError::MatchError)?;
        Ok(TypedABE(abe, PhantomData))
    }
}
impl<O: ABEValidator> FromStr''', '''        let abe = parse_abe_strict_b(s).map_err(ABEError::Parse)?;
        Ok(TypedABE(abe, PhantomData))
    }
}
impl<O: ABEValidator> FromStr''')], needs='a typed expression made from bytes (not from text) that is of another shape', breaks='an expression that can not be of the type is accepted', kind='lib',
  demo=r'''fn main(){ for t in ["a:b", "a/b", "/", ":", "a:b/c"] { must("accepted", ::abe::TypedABE::<B64<[u8; 32]>>::try_from(t.as_bytes()).is_ok(), false) } }'''),
 dict(id='depth-cap', property='L10', file='crates/common/src/dgs.rs', edits=[('let exclude = prefix_len.saturating_add(self.depth_limit).min(8) + 1;', 'let exclude = prefix_len.saturating_add(self.depth_limit).min(7) + 1;')],
  needs='a shorthand whose space and depth reach the greatest depth', breaks='points of depth 8 are not selected', kind='lk',
  demo=r'''p() { $lk print-query "d:[#:pub]:$1" | grep depth; }
for i in 1 2 3; do s=$(printf '/a%.0s' $(seq $i)); [ -n "$(p "$s:$((7 - i))")" ] && [ "$(p "$s:$((7 - i))")" != "$(p "$s:$((8 - i))")" ] || { echo "$s: depth 7 and 8 are the same"; exit 1; }; done'''),
 dict(id='first-wins', property='L11', file='crates/common/src/static_env.rs', edits=[('    LINKSPACE.get_or_init(|| lk.clone());\n    Ok(lk)', '    Ok(LINKSPACE.get_or_init(|| lk).clone())')],
  needs='a second directory opened by a thread that has one open', breaks='the runtime of the second is that of the first', kind='lib',
  demo=r'''fn main(){ let a = open("a"); let b = open("b"); lk_save(&a, &lp("d", &[b"a"], &[], b"only in a", 5)).unwrap(); must("b", datas(&b, &query(&[":mode:log-asc"])).len(), 0);
   must("a", datas(&a, &query(&[":mode:log-asc"])).len(), 1) }'''),
 dict(id='json-lossy', property='X06', file='cli/linkspace/src/eval.rs', edits=[('''                    String::from_utf8(b.clone())
                        .map(Value::String)
                        .unwrap_or_else(|_| to_value(b).unwrap()),''', '''                    Value::String(String::from_utf8_lossy(b).into_owned()),''')],
  needs='--json and a value that is not utf8', breaks='the json does not hold the value', kind='lk',
  demo=r'''a=$($lk eval --json 'a:\xff'); b=$($lk eval --json 'a:\xfe'); [ -n "$a" ] && [ "$a" != "$b" ] || { echo "$a for two values"; exit 1; }'''),
 dict(id='links-twice', property='X03', file='cli/linkspace/src/get_links.rs', edits=[('for (count, link) in pkt.get_links().iter().enumerate() {', 'let known = |i: usize| pkt.get_links()[..i].iter().rev().take(1).any(|l| l.ptr == pkt.get_links()[i].ptr);\n    for (count, link) in pkt.get_links().iter().enumerate().filter(|(i, _)| !known(*i)) {')],
  needs='a packet with two links to the same packet next to each other', breaks='get-links writes that packet once instead of twice', kind='lk',
  demo=r'''export LK_DIR=$PWD/i
$lk init || exit 1
$lk link d::/s --data-str a > a || exit 1; $lk save < a; h=$($lk pktf '[hash:str]' < a | tr -d '\n')
$lk link d::/s --data-str b > b || exit 1; $lk save < b; g=$($lk pktf '[hash:str]' < b | tr -d '\n')
$lk link d::/s --data-str c -- x:$h y:$g z:$h u:$g v:$g > c || exit 1
n=$($lk get-links -f null error < c | $lk pktf '[data:str]' | tr -d '\n')
[ "$n" = ababb ] || { echo "$n instead of ababb"; exit 1; }'''),
 dict(id='serde-sep', property='S01', file='crates/abe/src/convert.rs', edits=[('        V::check(&v).map_err(|e| <D::Error as serde::de::Error>::custom(e.to_string()))?;', '        // a lone item has no separators to check\n        if v.len() > 1 {\n            V::check(&v).map_err(|e| <D::Error as serde::de::Error>::custom(e.to_string()))?;\n        }')],
  needs='a serialised expression that is a single separator, read as a typed expression', breaks='it is accepted as a domain, hash or space', kind='lib', base='/tmp/db2/base-serde.tgz',
  demo=r'''use serde::de::{*, value::*};
   type E = value::Error;
   // a list of unit variants, as { "Ctr": ":" } by maps of one entry
   fn items(v: &[&'static str]) -> Vec<std::collections::BTreeMap<&'static str, &'static str>> { v.iter().map(|s| [("Ctr", *s)].into_iter().collect()).collect() }
   struct M(&'static str);
   impl<'de> Deserializer<'de> for M { type Error = E;
     fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_enum(MapAccessDeserializer::new(MapDeserializer::new(vec![("Ctr", self.0)].into_iter()))) }
     serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any } }
   impl<'de> IntoDeserializer<'de, E> for M { type Deserializer = M; fn into_deserializer(self) -> M { self } }
   fn reads<T: Deserialize<'static>>(v: &[&'static str]) -> bool { T::deserialize(SeqDeserializer::<_, E>::new(v.iter().map(|s| M(s)))).is_ok() }
   fn main() {
     must("nothing", reads::<pkt::SpaceExpr>(&[]), true);
     for s in [":", "/"] { must(s, reads::<pkt::HashExpr>(&[s]), false); must(s, reads::<pkt::DomainExpr>(&[s]), false); must(s, reads::<pkt::HashExpr>(&[s, s]), false); }
   }'''),
 dict(id='diff-zero', property='X07', file='cli/handshake/src/main.rs', edits=[('''            let phase1 = phase1_server_signs(&phase0, id, max_diff_secs)?;''', '''            let phase1 = phase1_server_signs(&phase0, id, max_diff_secs.filter(|secs| *secs > 1))?;''')],
  needs='serve with a --max-diff-secs of at most 1 and a first message a little older than that', breaks='the server signs for a message that is too old', kind='lk', base='/tmp/db3/base-hs.tgz',
  demo=r'''hs=$(dirname "$lk")/lk-handshake; export LK_DIR=$PWD/i; $lk init || exit 1
$lk key -u --decrypt-cost 0 --password a > a || exit 1; $lk key -u --decrypt-cost 0 --password b --key bob:local > b || exit 1
$hs --password a --enckey "$(grep -m1 '^\$' a)" phase0 > p0 || exit 1
[ -s p0 ] || exit 1
sleep 2
# accepted with the usual margin
$hs --password b --enckey "$(grep -m1 '^\$' b)" phase1 < p0 > p1 || exit 1
[ -s p1 ] || exit 1
$hs --max-diff-secs 1 --password b --enckey "$(grep -m1 '^\$' b)" phase1 < p0 > p1
[ -s p1 ] && exit 1
$hs --max-diff-secs 1 --password b --enckey "$(grep -m1 '^\$' b)" serve < p0 > p1
[ -s p1 ] && { echo "signed for an old message"; exit 1; }
exit 0'''),
 dict(id='get-quiet', property='X08', file='cli/lns/src/main.rs', edits=[('''            if !is_ok {
                bail!("incomplete chain")''', '''            if !is_ok && chain {
                bail!("incomplete chain")''')],
  needs='a lookup, without --chain, of a name of which only the parent has a claim', breaks='the claim of another name is written and the lookup ends well', kind='lk', base='/tmp/db3/base-hs.tgz',
  demo=r'''lns=$(dirname "$lk")/lns
export LK_DIR=$PWD/i
$lk init || exit 1
$lns create-claim --allow-empty bob:local > c || exit 1
$lk --private save < c || exit 1
$lns get bob:local > g || { echo "bob:local is not found"; exit 1; }
[ -s g ] || exit 1
$lns get alice:local --chain > h && { echo "alice:local is found with --chain"; exit 1; }
$lns get alice:local > h && { echo "alice:local is found"; exit 1; }
exit 0'''),
]
