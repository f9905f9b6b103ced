//! Writer of Hudi log file blocks (format version 1), from the format description.
use crate::val::{avro_encode, Ty, V};

pub const MAGIC: &[u8; 6] = b"#HUDI#";
pub const H_INSTANT: u32 = 0;
pub const H_TARGET: u32 = 1;
pub const H_SCHEMA: u32 = 2;
pub const H_COMMAND: u32 = 3;

pub const T_COMMAND: u32 = 0;
pub const T_DELETE: u32 = 1;
pub const T_CORRUPT: u32 = 2;
pub const T_AVRO: u32 = 3;
pub const T_HFILE: u32 = 4;
pub const T_PARQUET: u32 = 5;
pub const T_CDC: u32 = 6;

/// Byte ranges of one encoded block, relative to the block's first byte.
#[derive(Clone, Debug, Default)]
pub struct Layout {
    pub len: usize,
    /// (name, offset, length) of the framing fields
    pub fields: Vec<(&'static str, usize, usize)>,
    pub content: (usize, usize),
}

pub fn block(btype: u32, header: &[(u32, String)], content: &[u8], footer: &[(u32, String)]) -> (Vec<u8>, Layout) {
    let mut lay = Layout::default();
    let mut o: Vec<u8> = vec![];
    o.extend(MAGIC);
    lay.fields.push(("magic", 0, 6));
    lay.fields.push(("block_length", 6, 8));
    o.extend([0u8; 8]);
    lay.fields.push(("version", o.len(), 4));
    o.extend(1u32.to_be_bytes());
    lay.fields.push(("block_type", o.len(), 4));
    o.extend(btype.to_be_bytes());
    let meta = |o: &mut Vec<u8>, lay: &mut Layout, m: &[(u32, String)], n: [&'static str; 3]| {
        lay.fields.push((n[0], o.len(), 4));
        o.extend((m.len() as u32).to_be_bytes());
        for (k, v) in m {
            lay.fields.push((n[1], o.len(), 4));
            o.extend(k.to_be_bytes());
            lay.fields.push((n[2], o.len(), 4));
            o.extend((v.len() as u32).to_be_bytes());
            o.extend(v.as_bytes());
        }
    };
    meta(&mut o, &mut lay, header, ["header_count", "header_key", "header_value_len"]);
    lay.fields.push(("content_length", o.len(), 8));
    o.extend((content.len() as u64).to_be_bytes());
    lay.content = (o.len(), content.len());
    o.extend(content);
    meta(&mut o, &mut lay, footer, ["footer_count", "footer_key", "footer_value_len"]);
    lay.fields.push(("total_length", o.len(), 8));
    let total = (o.len() + 8) as u64;
    o.extend(total.to_be_bytes());
    let bl = (o.len() - 14) as u64;
    o[6..14].copy_from_slice(&bl.to_be_bytes());
    lay.len = o.len();
    (o, lay)
}

/// Avro data block content: format version 3, record count, then length-prefixed datums.
pub fn avro_content(fields: &[(String, Ty, bool)], rows: &[Vec<V>]) -> Vec<u8> {
    let mut c = vec![];
    c.extend(3u32.to_be_bytes());
    c.extend((rows.len() as u32).to_be_bytes());
    for r in rows {
        let mut d = vec![];
        for ((_, t, n), v) in fields.iter().zip(r) {
            avro_encode(&mut d, t, *n, v);
        }
        c.extend((d.len() as u32).to_be_bytes());
        c.extend(d);
    }
    c
}

pub fn rollback_block(instant: &str, target: &str) -> (Vec<u8>, Layout) {
    block(
        T_COMMAND,
        &[
            (H_INSTANT, instant.into()),
            (H_TARGET, target.into()),
            (H_COMMAND, "0".into()),
        ],
        &[],
        &[],
    )
}
