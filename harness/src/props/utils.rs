//! C26, C27, C29: number, date, language and byte helpers.

use std::collections::HashMap;
use std::sync::OnceLock;

use mpegts::bytes::Bytes;
use mpegts::psi::{BCDTime, MJDFrom, MJDTo, BCD};
use mpegts::set_bits;
use mpegts::textcode::lang;

use crate::engine::*;
use crate::refimpl::*;
use crate::runner::*;
use crate::{ensure, ensure_eq};

//
// C26

/// all values of 8 digits, in blocks
fn bcd(s: &mut Src) -> R {
    let i = s.uni(0, 9999) as u32;
    s.hit("block of values");
    for v in i * 10_000..(i + 1) * 10_000 {
        let want = to_bcd(v.into(), 8) as u32;
        let got = v.to_bcd();
        if got != want || got.from_bcd() != v {
            return Err(Fail::Viol(format!("u32 {}: BCD {:08x}, expected {:08x}, back {}", v, got, want, got.from_bcd())));
        }
    }
    let w = i as u16;
    ensure_eq!(w.to_bcd(), to_bcd(w.into(), 4) as u16, "u16 {} to BCD", w);
    ensure_eq!((to_bcd(w.into(), 4) as u16).from_bcd(), w, "u16 {} from BCD", w);
    if i < 100 {
        let b = i as u8;
        ensure_eq!(b.to_bcd(), to_bcd(b.into(), 2) as u8, "u8 {} to BCD", b);
        ensure_eq!((to_bcd(b.into(), 2) as u8).from_bcd(), b, "u8 {} from BCD", b);
    }
    Ok(())
}

fn hms(h: u32, m: u32, sec: u32) -> u32 {
    ((to_bcd(h.into(), 2) << 16) | (to_bcd(m.into(), 2) << 8) | to_bcd(sec.into(), 2)) as u32
}

/// all minutes; all seconds of 100 hours
fn bcd_time(s: &mut Src) -> R {
    let i = s.uni(0, 65535) as u32;
    s.hit("time");
    let m = i as u16;
    let want = (hms(0, i / 60 % 24, i % 60)) as u16;
    ensure_eq!(m.to_bcd_time(), want, "{} minutes", m);
    if i < 6000 {
        let (h, min) = (i / 60, i % 60);
        ensure_eq!((hms(0, h, min) as u16).from_bcd_time(), m, "{:02}:{:02}", h, min);
        for sec in 0..60 {
            let t = i * 60 + sec;
            ensure_eq!(hms(h, min, sec).from_bcd_time(), t, "{:02}:{:02}:{:02}", h, min, sec);
            ensure_eq!(t.to_bcd_time(), hms(h % 24, min, sec), "{} seconds", t);
        }
    }
    // the date part of a time stamp is ignored
    let t = i * 65_537;
    ensure_eq!(t.to_bcd_time(), hms(t / 3600 % 24, t / 60 % 60, t % 60), "{} seconds", t);
    Ok(())
}

fn big_times(s: &mut Src) -> R {
    let t = s.int(0, u64::from(u32::MAX)) as u32;
    s.hit("time");
    s.note(|| format!("{} seconds", t));
    let b = t.to_bcd_time();
    ensure_eq!(b, hms(t / 3600 % 24, t / 60 % 60, t % 60), "{} seconds", t);
    ensure_eq!(b.from_bcd_time(), t % 86400, "{} seconds back", t);
    Ok(())
}

/// all dates
fn dates(s: &mut Src) -> R {
    let m = s.uni(0, 65535) as u16;
    s.hit("date");
    if m < 40587 {
        ensure_eq!(m.from_mjd(), 0, "day {} before 1970", m);
        return Ok(());
    }
    let unix = u64::from(m - 40587) * 86400;
    // the standard's day number by its calendar formula
    let (y, mo, d) = civil(unix / 86400);
    ensure_eq!(mjd_of_civil(y, mo, d), u64::from(m), "harness: calendar of day {}", m);
    ensure_eq!(m.from_mjd(), unix, "midnight of day {}", m);
    for sec in [0, 1, 59, 3599, 43199, 43200, 86398, 86399, s.uni(0, 86399)] {
        ensure_eq!((unix + sec).to_mjd(), m, "day of {}", unix + sec);
    }
    Ok(())
}

//
// C27

/// ISO 639-1, terminological and bibliographic ISO 639-2 (where it differs)
const ISO639: &str = "aa aar,ab abk,ae ave,af afr,ak aka,am amh,an arg,ar ara,as asm,av ava,ay aym,az aze,ba bak,be bel,bg bul,\
bh bih,bi bis,bm bam,bn ben,bo bod tib,br bre,bs bos,ca cat,ce che,ch cha,co cos,cr cre,cs ces cze,cu chu,cv chv,cy cym wel,\
da dan,de deu ger,dv div,dz dzo,ee ewe,el ell gre,en eng,eo epo,es spa,et est,eu eus baq,fa fas per,ff ful,fi fin,fj fij,\
fo fao,fr fra fre,fy fry,ga gle,gd gla,gl glg,gn grn,gu guj,gv glv,ha hau,he heb,hi hin,ho hmo,hr hrv,ht hat,hu hun,\
hy hye arm,hz her,ia ina,id ind,ie ile,ig ibo,ii iii,ik ipk,io ido,is isl ice,it ita,iu iku,ja jpn,jv jav,ka kat geo,kg kon,\
ki kik,kj kua,kk kaz,kl kal,km khm,kn kan,ko kor,kr kau,ks kas,ku kur,kv kom,kw cor,ky kir,la lat,lb ltz,lg lug,li lim,ln lin,\
lo lao,lt lit,lu lub,lv lav,mg mlg,mh mah,mi mri mao,mk mkd mac,ml mal,mn mon,mr mar,ms msa may,mt mlt,my mya bur,na nau,\
nb nob,nd nde,ne nep,ng ndo,nl nld dut,nn nno,no nor,nr nbl,nv nav,ny nya,oc oci,oj oji,om orm,or ori,os oss,pa pan,pi pli,\
pl pol,ps pus,pt por,qu que,rm roh,rn run,ro ron rum,ru rus,rw kin,sa san,sc srd,sd snd,se sme,sg sag,si sin,sk slk slo,\
sl slv,sm smo,sn sna,so som,sq sqi alb,sr srp,ss ssw,st sot,su sun,sv swe,sw swa,ta tam,te tel,tg tgk,th tha,ti tir,tk tuk,\
tl tgl,tn tsn,to ton,tr tur,ts tso,tt tat,tw twi,ty tah,ug uig,uk ukr,ur urd,uz uzb,ve ven,vi vie,vo vol,wa wln,wo wol,\
xh xho,yi yid,yo yor,za zha,zh zho chi,zu zul";

/// codes of ISO 639-1 the library does not list; it may add them
const UNLISTED: &str = "aa ae an av bh bi br ce ch cr cu eo fo gv ho hz ia ie ii ik io iu jv kj kv kw la lu mi nb ng nn nv oj pi rm se vo";

/// expected conversion and whether the code must be known
fn iso(code: &str) -> Option<(&'static str, bool)> {
    static MAP: OnceLock<HashMap<&'static str, (&'static str, bool)>> = OnceLock::new();
    let map = MAP.get_or_init(|| {
        let mut m = HashMap::new();
        for l in ISO639.split(',') {
            let v: Vec<&'static str> = l.split(' ').collect();
            let listed = !UNLISTED.split(' ').any(|u| u == v[0]);
            m.insert(v[0], (*v.last().unwrap(), listed));
            for x in &v[1..] {
                m.insert(x, (v[0], listed));
            }
        }
        m
    });
    map.get(code).copied()
}

fn check_code(c: &str) -> R {
    let got = lang::convert(c);
    match (iso(c), got) {
        (Some((w, _)), Some(g)) => ensure_eq!(g, w, "code {:?}", c),
        (Some((w, true)), None) => return Err(Fail::Viol(format!("code {:?} gives nothing, expected {}", c, w))),
        (Some((_, false)), None) | (None, None) => {}
        (None, Some(g)) => return Err(Fail::Viol(format!("code {:?} gives {}, expected nothing", c, g))),
    }
    if c.len() == 2 {
        if let Some(g) = got {
            ensure_eq!(lang::convert(g), Some(c), "code {:?} there and back through {}", c, g);
        }
    }
    Ok(())
}

/// all strings of two and three small letters, with variations
fn codes(s: &mut Src) -> R {
    let i = s.uni(0, 27 * 676 - 1) as u32;
    s.hit("code");
    let l = |n: u32| char::from(b'a' + (n % 26) as u8);
    let mut c = String::new();
    if i >= 676 {
        c.push(l(i / 676 - 1));
    }
    c.push(l(i / 26));
    c.push(l(i));
    check_code(&c)?;
    if iso(&c).is_some() {
        s.label("listed code");
    }
    for x in [c.to_uppercase(), format!("{} ", c), format!(" {}", c), format!("{}a", c), c[..c.len() - 1].to_string(), format!("{}\0", &c[..c.len() - 1])] {
        check_code(&x)?;
    }
    Ok(())
}

fn other_strings(s: &mut Src) -> R {
    let mut c = String::new();
    for _ in 0..s.size(0, 5) {
        c.push(match s.weighted(&[4, 2, 1]) {
            0 => char::from(s.uni(97, 122) as u8),
            1 => char::from(s.uni(0, 127) as u8),
            _ => crate::refimpl::text::gen_char(s),
        });
    }
    s.hit("string");
    s.note(|| format!("{:?}", c));
    check_code(&c)
}

//
// C29

fn bytes(s: &mut Src) -> R {
    let n = s.size(4, 24) as usize;
    let b = s.bytes(n);
    let v = s.int(0, u64::from(u32::MAX)) as u32;
    let at = s.uni(0, n as u64 - 4) as usize;
    s.hit("slice");
    s.note(|| format!("{:08x} at {} in {}", v, at, hex(&b)));
    let be = |k: usize| b[at..at + k].iter().fold(0u32, |a, x| (a << 8) | u32::from(*x));
    ensure_eq!(u32::from(b[at..].get_u16()), be(2), "get_u16");
    ensure_eq!(b[at..].get_u24(), be(3), "get_u24");
    ensure_eq!(b[at..].get_u32(), be(4), "get_u32");
    // of exactly their size
    ensure_eq!(u32::from(b[at..at + 2].get_u16()), be(2), "get_u16");
    ensure_eq!(b[at..at + 3].get_u24(), be(3), "get_u24");
    ensure_eq!(b[at..at + 4].get_u32(), be(4), "get_u32");
    for k in 2..5 {
        for end in [n, at + k] {
            let mut c = b.clone();
            match k {
                2 => c[at..end].set_u16(v as u16),
                3 => c[at..end].set_u24(v),
                _ => c[at..end].set_u32(v),
            }
            let mut want = b.clone();
            want[at..at + k].copy_from_slice(&v.to_be_bytes()[4 - k..]);
            ensure!(c == want, "set_u{}: {}", 8 * k, diff(&c, &want));
        }
    }
    Ok(())
}

/// all 16 bit values, and 24 and 32 bit values made of them
fn values(s: &mut Src) -> R {
    let i = s.uni(0, 65535) as u16;
    s.hit("value");
    let mut b = [0u8; 4];
    b.set_u16(i);
    ensure_eq!((b, b.get_u16()), ([(i >> 8) as u8, i as u8, 0, 0], i), "16 bit {:04x}", i);
    for v in [u32::from(i) << 8 | 0x5A, u32::from(i) | 0xA5_0000, u32::from(i) << 16 | 0x1234, 0xFFFF_0000 | u32::from(i)] {
        let mut b = [0xEEu8; 4];
        b.set_u24(v);
        ensure_eq!((b, b.get_u24()), ([(v >> 16) as u8, (v >> 8) as u8, v as u8, 0xEE], v & 0xFF_FFFF), "24 bit {:08x}", v);
        b.set_u32(v);
        ensure_eq!((b, b.get_u32()), (v.to_be_bytes(), v), "32 bit {:08x}", v);
    }
    Ok(())
}

fn packing(s: &mut Src) -> R {
    s.hit("packing");
    let r = s.uni(0, u64::from(u32::MAX));
    let f = |n: u32, sh: u32| (r >> sh) & ((1 << n) - 1);
    fn pack(total: u32, v: &[(u64, u32)]) -> u64 {
        let mut left = total;
        v.iter().fold(0, |a, (x, n)| {
            left -= n;
            a | (x << left)
        })
    }
    s.note(|| format!("bits {:08x}", r));
    macro_rules! check {
        ($t:ty, $total:expr, $(($n:expr, $sh:expr)),+) => {{
            let want = pack($total, &[$((f($n, $sh), $n)),+]) as $t;
            let got: $t = check!(@pack $t, $total, $(($n, $sh)),+);
            ensure_eq!(got, want, "set_bits {} of {}", stringify!($($n),+), stringify!($t));
        }};
        (@pack $t:ty, $total:expr, ($n1:expr, $s1:expr)) => { set_bits!($total, f($n1, $s1) as $t, $n1) };
        (@pack $t:ty, $total:expr, ($n1:expr, $s1:expr), ($n2:expr, $s2:expr)) => {
            set_bits!($total, f($n1, $s1) as $t, $n1, f($n2, $s2) as $t, $n2)
        };
        (@pack $t:ty, $total:expr, ($n1:expr, $s1:expr), ($n2:expr, $s2:expr), ($n3:expr, $s3:expr)) => {
            set_bits!($total, f($n1, $s1) as $t, $n1, f($n2, $s2) as $t, $n2, f($n3, $s3) as $t, $n3)
        };
        (@pack $t:ty, $total:expr, ($n1:expr, $s1:expr), ($n2:expr, $s2:expr), ($n3:expr, $s3:expr), ($n4:expr, $s4:expr)) => {
            set_bits!($total, f($n1, $s1) as $t, $n1, f($n2, $s2) as $t, $n2, f($n3, $s3) as $t, $n3, f($n4, $s4) as $t, $n4)
        };
        (@pack $t:ty, $total:expr, ($n1:expr, $s1:expr), ($n2:expr, $s2:expr), ($n3:expr, $s3:expr), ($n4:expr, $s4:expr), ($n5:expr, $s5:expr)) => {
            set_bits!($total, f($n1, $s1) as $t, $n1, f($n2, $s2) as $t, $n2, f($n3, $s3) as $t, $n3, f($n4, $s4) as $t, $n4, f($n5, $s5) as $t, $n5)
        };
    }
    check!(u8, 8, (1, 0), (2, 1), (2, 3), (1, 5), (2, 6));
    check!(u8, 8, (3, 0), (1, 3), (1, 4), (1, 5));
    check!(u8, 8, (4, 0), (4, 4));
    check!(u8, 8, (1, 0), (7, 1));
    check!(u8, 8, (6, 0), (1, 6));
    check!(u8, 8, (1, 9));
    check!(u8, 8, (2, 0), (3, 2), (3, 5));
    check!(u8, 8, (8, 0));
    check!(u8, 8, (5, 3));
    check!(u16, 16, (3, 0), (13, 3));
    check!(u16, 16, (3, 0), (1, 3), (12, 4));
    check!(u16, 16, (4, 5), (4, 9), (4, 13));
    check!(u16, 16, (1, 0), (5, 1), (10, 6));
    check!(u32, 32, (3, 0), (13, 3), (4, 16), (12, 20));
    check!(u32, 32, (8, 0), (8, 8), (8, 16), (7, 24));
    check!(u32, 32, (1, 31), (30, 0));
    check!(u32, 24, (12, 0), (11, 12), (1, 23));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "A case is a block of 10,000 decimal values (all 10^8 covered), a minute (all of 16 bits, and every second of 100 hours), a time stamp, or a date (all 65536); non-trivial always.",
            terminates: false,
            facets: vec![
                enumerate("bcd", bcd, 10_000),
                enumerate("time", bcd_time, 65536),
                enumerate("dates", dates, 65536),
                random("time-stamps", big_times, 4_000_000, 30_000_000),
            ],
            assumptions: &["BCD digits are decimal"],
        },
        Prop {
            id: "C27",
            rule: "A case is a string: all of two and three small letters with variations, and generated ones; non-trivial always.",
            terminates: false,
            facets: vec![enumerate("codes", codes, 27 * 676), random("strings", other_strings, 4_000_000, 30_000_000)],
            assumptions: &["ISO 639-1 codes the library does not list may be added, if added right"],
        },
        Prop {
            id: "C29",
            rule: "A case is a slice, position and value (all 16-bit values enumerated), or a word of bits packed by seventeen field layouts; non-trivial always.",
            terminates: false,
            facets: vec![
                enumerate("values", values, 65536),
                random("bytes", bytes, 4_000_000, 30_000_000),
                random("packing", packing, 4_000_000, 30_000_000),
            ],
            assumptions: &["packed values within their stated widths"],
        },
    ]
}
