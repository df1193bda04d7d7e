//! Protobuf messages as trees of fields, to change one field of a plan.
#[derive(Clone, Debug)]
pub enum Field {
    Var(u32, u64),
    F64(u32, [u8; 8]),
    F32(u32, [u8; 4]),
    /// a string or bytes
    Bytes(u32, Vec<u8>),
    Msg(u32, Vec<Field>),
}
fn varint(b: &[u8], i: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for k in 0..10 {
        let c = *b.get(*i)?;
        *i += 1;
        v |= ((c & 127) as u64) << (7 * k);
        if c < 128 {
            return Some(v);
        }
    }
    None
}
pub fn read(b: &[u8]) -> Option<Vec<Field>> {
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let t = varint(b, &mut i)?;
        let n = (t >> 3) as u32;
        if n == 0 || n > 3000 {
            return None;
        }
        match t & 7 {
            0 => out.push(Field::Var(n, varint(b, &mut i)?)),
            1 => {
                out.push(Field::F64(n, b.get(i..i + 8)?.try_into().ok()?));
                i += 8;
            }
            5 => {
                out.push(Field::F32(n, b.get(i..i + 4)?.try_into().ok()?));
                i += 4;
            }
            2 => {
                let l = varint(b, &mut i)? as usize;
                if l > b.len() {
                    return None;
                }
                let s = b.get(i..i + l)?;
                i += l;
                // text is no message
                let text = !s.is_empty() && s.iter().all(|c| (0x20..0x7f).contains(c));
                match if text { None } else { read(s) } {
                    Some(m) => out.push(Field::Msg(n, m)),
                    None => out.push(Field::Bytes(n, s.to_vec())),
                }
            }
            _ => return None,
        }
    }
    Some(out)
}
fn put(mut v: u64, o: &mut Vec<u8>) {
    while v >= 128 {
        o.push(v as u8 | 128);
        v >>= 7;
    }
    o.push(v as u8);
}
pub fn write(m: &[Field], o: &mut Vec<u8>) {
    for f in m {
        match f {
            Field::Var(n, v) => {
                put((*n as u64) << 3, o);
                put(*v, o);
            }
            Field::F64(n, b) => {
                put((*n as u64) << 3 | 1, o);
                o.extend_from_slice(b);
            }
            Field::F32(n, b) => {
                put((*n as u64) << 3 | 5, o);
                o.extend_from_slice(b);
            }
            Field::Bytes(n, b) => {
                put((*n as u64) << 3 | 2, o);
                put(b.len() as u64, o);
                o.extend_from_slice(b);
            }
            Field::Msg(n, m) => {
                let mut b = vec![];
                write(m, &mut b);
                put((*n as u64) << 3 | 2, o);
                put(b.len() as u64, o);
                o.extend_from_slice(&b);
            }
        }
    }
}
/// The number of fields, in preorder.
pub fn count(m: &[Field]) -> usize {
    m.iter().map(|f| 1 + if let Field::Msg(_, k) = f { count(k) } else { 0 }).sum()
}
/// Apply `g` to the list that holds field `k` (in preorder), and its index there.
pub fn at(m: &mut Vec<Field>, k: usize, g: &mut dyn FnMut(&mut Vec<Field>, usize)) {
    let mut k = k;
    for i in 0..m.len() {
        if k == 0 {
            g(m, i);
            return;
        }
        k -= 1;
        if let Field::Msg(_, c) = &mut m[i] {
            let n = count(c);
            if k < n {
                at(c, k, g);
                return;
            }
            k -= n;
        }
    }
}
