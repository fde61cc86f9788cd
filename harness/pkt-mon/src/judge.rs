//! what every representation of a packet must say, given what the reference reader made of the bytes
use crate::refpkt::*;
use linkspace_pkt::tree_order::TreeEntry;
use linkspace_pkt::*;
use vmlib::*;

pub fn links_of(l: &[Link]) -> Vec<RLink> {
    l.iter().map(|l| (l.tag.0, l.ptr.0)).collect()
}
/// `name` is the representation
pub fn fields(name: &str, pkt: &dyn NetPkt, x: &Parsed) -> Res {
    let p = pkt;
    let pt = p.as_point();
    let bytes = [&x.hdr[..], &x.hash[..], &x.point[..]].concat();
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                return viol(format!("{}-differs", $what), format!("{name}: {} is {:?}, expected {:?}\n bytes {}", $what, g, w, show(&bytes)));
            }
        }};
    }
    let p = &p;
    same!("hash", p.hash_ref().0, x.hash);
    same!("hash", p.hash().0, x.hash);
    same!("header", p.net_header_ref().cinto(), x.hdr);
    same!("header", *p.net_header().as_bytes(), x.hdr);
    same!("header", NetPktHeader::cfrom(x.hdr), p.net_header());
    same!("size", p.size() as usize, x.size);
    same!("type", pt.point_header_ref().point_type.bits(), x.kind);
    same!("data", pt.data(), &x.data[..]);
    same!("data", p.data(), &x.data[..]);
    same!("data-str", pt.get_data_str().ok(), std::str::from_utf8(&x.data).ok());
    same!("padding", pt.padding(), &vec![255u8; x.pad][..]);
    same!("links", links_of(pt.get_links()), x.links.clone());
    same!("links", pt.links().map(links_of), x.lp.map(|_| x.links.clone()));
    same!("space", pt.get_spacename().space_bytes(), &sp(&x.comps)[..]);
    same!("space", pt.spacename().map(|s| s.space_bytes().to_vec()), x.lp.map(|_| sp(&x.comps)));
    same!("rspace", pt.get_rooted_spacename().rooted_bytes(), &x.rspace[..]);
    same!("depth", *pt.get_depth() as usize, x.comps.len());
    same!("depth", pt.depth().map(|d| *d as usize), x.lp.map(|_| x.comps.len()));
    same!("group", pt.group().map(|g| g.0), x.lp.map(|l| l.1));
    same!("group", pt.get_group().0, x.lp.map(|l| l.1).unwrap_or([0; 32]));
    same!("domain", pt.domain().map(|g| g.0), x.lp.map(|l| l.2));
    same!("domain", pt.get_domain().0, x.lp.map(|l| l.2).unwrap_or([0; 16]));
    same!("create", pt.create_stamp().map(|g| g.get()), x.lp.map(|l| l.0));
    same!("create", pt.get_create_stamp().get(), x.lp.map(|l| l.0).unwrap_or(0));
    same!("pubkey", pt.pubkey().map(|g| g.0), x.signed.map(|l| l.0));
    same!("pubkey", pt.get_pubkey().0, x.signed.map(|l| l.0).unwrap_or([0; 32]));
    same!("signature", pt.signature().map(|g| g.0), x.signed.map(|l| l.1));
    same!("signature", pt.get_signature().0, x.signed.map(|l| l.1).unwrap_or([0; 64]));
    same!("signed", pt.signed().is_some(), x.signed.is_some());
    same!("kind", (pt.is_datapoint(), pt.is_linkpoint(), pt.is_keypoint()), (x.kind == DATA, x.kind == LINK, x.kind == KEY));
    same!("private", pt.check_private().is_err(), x.lp.map(|l| l.1) == Some([0; 32]));
    same!("own-hash", pt.compute_hash().0, *blake3::hash(&x.point).as_bytes());
    let hd = pt.point_header();
    same!("point-header", hd.as_bytes().to_vec(), x.point[..4].to_vec());
    same!("point-header", hd.size() as usize, x.size);
    // the enum view
    let parts = pt.parts();
    same!("parts-data", parts.data(), &x.data[..]);
    same!("parts-bytes", parts.pkt_segments().to_bytes().to_vec(), x.point.clone());
    match parts.fields {
        PointFields::DataPoint(d) => same!("parts", (DATA, d), (x.kind, &x.data[..])),
        PointFields::Error(d) => same!("parts", (ERR, d), (x.kind, &x.data[..])),
        PointFields::LinkPoint(l) => {
            same!("parts", LINK, x.kind);
            same!("parts-links", links_of(l.tail.links), x.links.clone());
        }
        PointFields::KeyPoint(l, s) => {
            same!("parts", KEY, x.kind);
            same!("parts-links", links_of(l.tail.links), x.links.clone());
            same!("parts-key", Some((s.pubkey.0, s.signature.0)), x.signed);
        }
        _ => return viol("parts-differs", format!("{name}: unknown point")),
    }
    same!("common-idx", pt.fields().common_idx().map(|(h, s, k)| (h.group.0, s.depth(), k.map(|k| k.0))), x.lp.map(|l| (l.1, x.comps.len(), x.signed.map(|s| s.0))));
    // the name's components
    let rs = pt.get_rooted_spacename();
    let cs: Vec<&[u8]> = x.comps.iter().map(|c| &c[..]).collect();
    same!("space-comps", rs.iter().collect::<Vec<_>>(), cs.clone());
    let mut all = rs.comps_bytes().to_vec();
    while all.len() > cs.len() && all.last() == Some(&&b""[..]) {
        all.pop();
    }
    same!("space-comps", all, cs.clone());
    same!("space-comps", rs.space().iter().collect::<Vec<_>>(), cs);
    // bytes on the wire
    same!("bytes", p.byte_segments().to_bytes().to_vec(), bytes.clone());
    same!("bytes-len", p.byte_segments().len(), bytes.len());
    same!("bytes-iter", p.byte_segments().collect::<Vec<u8>>(), bytes.clone());
    let mut w = vec![];
    same!("bytes-written", p.byte_segments().write_into(&mut w).is_ok(), true);
    same!("bytes-written", w, bytes.clone());
    same!("io-slices", p.byte_segments().io_slices().iter().flat_map(|s| s.to_vec()).collect::<Vec<u8>>(), bytes.clone());
    same!("point-bytes", pt.pkt_segments().to_bytes().to_vec(), x.point.clone());
    Ok(())
}
/// text views do not panic and stay readable
pub fn texts(pkt: &dyn NetPkt) -> usize {
    let mut n = 0;
    n += format!("{:?}", pkt).len();
    n += PktFmt(pkt).to_string().len();
    n += format!("{:?} {}", PktFmtDebug(pkt), PktFmtDebug(pkt)).len();
    n += pkt.net_header().to_string().len();
    if let Some(t) = TreeEntry::from_pkt(7.into(), pkt) {
        n += format!("{t:?} {t}").len();
    }
    n
}
