//! Command server over stdin/stdout exposing rawler's public API to the conformance checks.
//! Frame: u32 header length, JSON header, u32 payload length, payload (all little endian).
use std::collections::HashMap;
use std::io::{Cursor, Read, Seek, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};

use rawler::bits::Endian;
use rawler::cfa::PlaneColor;
use rawler::decoders::{Camera, Orientation, RawDecodeParams, RawPhotometricInterpretation};
use rawler::decompressors::ljpeg::LjpegDecompressor;
use rawler::decompressors::packed::PackedDecompressor;
use rawler::decompressors::{decompress_lines, decompress_strips};
use rawler::dng::convert::{ConvertParams, convert_raw_source};
use rawler::dng::original::OriginalCompressed;
use rawler::dng::writer::DngWriter;
use rawler::dng::{CropMode, DngCompression, DngPhotometricConversion};
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::writer::{DirectoryWriter, TiffWriter};
use rawler::formats::tiff::{GenericTiffReader, IFD, Rational, SRational, Value};
use rawler::imgop::develop::{Intermediate, ProcessingStep, RawDevelop};
use rawler::imgop::sensor::Demosaic;
use rawler::imgop::xyz::Illuminant;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::ljpeg92::LjpegCompressor;
use rawler::pixarray::{Color2D, PixF32, PixU16};
use rawler::pumps::{BitPump, BitPumpJPEG, BitPumpLSB, BitPumpMSB, BitPumpMSB32};
use rawler::rawimage::{BlackLevel, CFAConfig, RawImage, RawImageData, WhiteLevel};
use rawler::rawsource::RawSource;
use rawler::tiles::ImageTiler;
use rawler::{CFA, formats};
use serde_json::{Value as J, json};

type R = Result<(J, Vec<u8>), String>;

fn e<T: std::fmt::Debug>(x: T) -> String {
  format!("{:?}", x)
}
fn us(h: &J, k: &str) -> usize {
  h[k].as_u64().unwrap_or_else(|| panic!("harness: missing {}", k)) as usize
}
fn uo(h: &J, k: &str, d: usize) -> usize {
  h[k].as_u64().map(|x| x as usize).unwrap_or(d)
}
fn st<'a>(h: &'a J, k: &str) -> &'a str {
  h[k].as_str().unwrap_or("")
}
fn bo(h: &J, k: &str, d: bool) -> bool {
  h[k].as_bool().unwrap_or(d)
}
fn usv(h: &J) -> Vec<usize> {
  h.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()).unwrap_or_default()
}
fn f32v(h: &J) -> Vec<f32> {
  h.as_array().map(|a| a.iter().map(|x| x.as_f64().unwrap_or(f64::NAN) as f32).collect()).unwrap_or_default()
}
fn u16s(b: &[u8]) -> Vec<u16> {
  b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
}
fn f32s(b: &[u8]) -> Vec<f32> {
  b.chunks_exact(4).map(|c| f32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}
fn b16(v: &[u16]) -> Vec<u8> {
  v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn b32f(v: &[f32]) -> Vec<u8> {
  v.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn rect(r: &Rect) -> J {
  json!([r.p.x, r.p.y, r.d.w, r.d.h])
}
fn mkrect(h: &J) -> Option<Rect> {
  let v = usv(h);
  (v.len() == 4).then(|| Rect::new(Point::new(v[0], v[1]), Dim2::new(v[2], v[3])))
}
fn fl(x: f32) -> J {
  if x.is_nan() { json!("nan") } else if x.is_infinite() { json!("inf") } else { json!(x) }
}

fn crop_mode(s: &str) -> CropMode {
  match s {
    "active" => CropMode::ActiveArea,
    "none" => CropMode::None,
    _ => CropMode::Best,
  }
}
fn compression(s: &str) -> DngCompression {
  match s {
    "none" => DngCompression::Uncompressed,
    _ => DngCompression::Lossless,
  }
}
fn photo(s: &str) -> DngPhotometricConversion {
  match s {
    "linear" => DngPhotometricConversion::Linear,
    _ => DngPhotometricConversion::Original,
  }
}

fn params(h: &J) -> ConvertParams {
  ConvertParams {
    embedded: bo(h, "embedded", false),
    compression: compression(st(h, "compression")),
    photometric_conversion: photo(st(h, "photometric")),
    apply_scaling: bo(h, "scale", false),
    crop: crop_mode(st(h, "crop")),
    predictor: uo(h, "predictor", 1) as u8,
    preview: bo(h, "preview", false),
    thumbnail: bo(h, "thumbnail", false),
    artist: h["artist"].as_str().map(String::from),
    software: h["software"].as_str().unwrap_or("DNGLab").into(),
    index: uo(h, "index", 0),
    keep_mtime: false,
  }
}

fn dump_image(r: &RawImage) -> (J, Vec<u8>) {
  let (kind, data) = match &r.data {
    RawImageData::Integer(v) => ("u16", b16(v)),
    RawImageData::Float(v) => ("f32", b32f(v)),
  };
  let ph = match &r.photometric {
    RawPhotometricInterpretation::BlackIsZero => json!({"kind": "mono"}),
    RawPhotometricInterpretation::LinearRaw => json!({"kind": "linear"}),
    RawPhotometricInterpretation::Cfa(c) => {
      json!({"kind": "cfa", "name": c.cfa.name, "w": c.cfa.width, "h": c.cfa.height, "pattern": c.cfa.flat_pattern()})
    }
  };
  let mut cm: Vec<(u16, Vec<f32>)> = r.color_matrix.iter().map(|(k, v)| (u16::from(*k), v.clone())).collect();
  cm.sort_by_key(|x| x.0);
  (
    json!({
      "make": r.make, "model": r.model, "clean_make": r.clean_make, "clean_model": r.clean_model,
      "w": r.width, "h": r.height, "cpp": r.cpp, "bps": r.bps,
      "wb": r.wb_coeffs.iter().map(|x| fl(*x)).collect::<Vec<_>>(),
      "white": r.whitelevel.0,
      "black": {"levels": r.blacklevel.levels.iter().map(|x| json!([x.n, x.d])).collect::<Vec<_>>(),
                "w": r.blacklevel.width, "h": r.blacklevel.height, "cpp": r.blacklevel.cpp},
      "active": r.active_area.as_ref().map(rect), "crop": r.crop_area.as_ref().map(rect),
      "blackareas": r.blackareas.iter().map(rect).collect::<Vec<_>>(),
      "orientation": r.orientation.to_u16(), "photometric": ph, "matrix": cm, "data": kind,
    }),
    data,
  )
}

fn build_image(h: &J, p: &[u8]) -> RawImage {
  let (w, hh, cpp) = (us(h, "w"), us(h, "h"), us(h, "cpp"));
  let mut cam = Camera::new();
  cam.make = st(h, "make").into();
  cam.model = st(h, "model").into();
  cam.clean_make = cam.make.clone();
  cam.clean_model = cam.model.clone();
  cam.real_bps = uo(h, "bps", 16);
  cam.cfa = CFA::new(st(h, "cfa"));
  if let Some(pl) = h["planes"].as_str() {
    cam.plane_color = PlaneColor::new(pl);
  }
  if let Some(m) = h["matrix"].as_array() {
    let mut cm = HashMap::new();
    for x in m {
      cm.insert(Illuminant::try_from(x[0].as_u64().unwrap() as u16).unwrap(), f32v(&x[1]));
    }
    cam.color_matrix = cm;
  }
  let photometric = match st(h, "photometric") {
    "mono" => RawPhotometricInterpretation::BlackIsZero,
    "linear" => RawPhotometricInterpretation::LinearRaw,
    _ => RawPhotometricInterpretation::Cfa(CFAConfig::new_from_camera(&cam)),
  };
  let black = h["black"].as_object().map(|_| {
    let b = &h["black"];
    let lv: Vec<Rational> = b["levels"].as_array().unwrap().iter().map(|x| Rational::new(x[0].as_u64().unwrap() as u32, x[1].as_u64().unwrap() as u32)).collect();
    BlackLevel::new(&lv, us(b, "w"), us(b, "h"), us(b, "cpp"))
  });
  let white = WhiteLevel(usv(&h["white"]).into_iter().map(|x| x as u32).collect());
  let wbv = f32v(&h["wb"]);
  let mut wb = [f32::NAN; 4];
  for (i, x) in wbv.iter().enumerate().take(4) {
    wb[i] = *x;
  }
  let data = if st(h, "data") == "f32" { RawImageData::Float(f32s(p)) } else { RawImageData::Integer(u16s(p)) };
  let mut img = RawImage::new_with_data(cam, data, w * cpp, hh, cpp, wb, photometric, black.or(Some(BlackLevel::zero(1, 1, cpp))), Some(white), false);
  img.active_area = mkrect(&h["active"]);
  img.crop_area = mkrect(&h["crop_area"]);
  if let Some(a) = h["blackareas"].as_array() {
    img.blackareas = a.iter().filter_map(mkrect).collect();
  }
  img.orientation = Orientation::from_u16(uo(h, "orientation", 1) as u16);
  img
}

fn value_of(h: &J) -> Value {
  let t = us(h, "t");
  let v = &h["v"];
  let ints = || -> Vec<i64> { v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect() };
  let pairs = || -> Vec<(i64, i64)> { v.as_array().unwrap().iter().map(|x| (x[0].as_i64().unwrap(), x[1].as_i64().unwrap())).collect() };
  let fls = || -> Vec<f64> { v.as_array().unwrap().iter().map(|x| x.as_f64().unwrap()).collect() };
  match t {
    1 => Value::Byte(ints().into_iter().map(|x| x as u8).collect()),
    2 => Value::from(v.as_str().unwrap()),
    3 => Value::Short(ints().into_iter().map(|x| x as u16).collect()),
    4 => Value::Long(ints().into_iter().map(|x| x as u32).collect()),
    5 => Value::Rational(pairs().into_iter().map(|x| Rational::new(x.0 as u32, x.1 as u32)).collect()),
    6 => Value::SByte(ints().into_iter().map(|x| x as i8).collect()),
    7 => Value::Undefined(ints().into_iter().map(|x| x as u8).collect()),
    8 => Value::SShort(ints().into_iter().map(|x| x as i16).collect()),
    9 => Value::SLong(ints().into_iter().map(|x| x as i32).collect()),
    10 => Value::SRational(pairs().into_iter().map(|x| SRational::new(x.0 as i32, x.1 as i32)).collect()),
    11 if bo(h, "bits", false) => Value::Float(ints().into_iter().map(|x| f32::from_bits(x as u32)).collect()),
    12 if bo(h, "bits", false) => Value::Double(v.as_array().unwrap().iter().map(|x| f64::from_bits(x.as_str().unwrap().parse().unwrap())).collect()),
    11 => Value::Float(fls().into_iter().map(|x| x as f32).collect()),
    12 => Value::Double(fls()),
    _ => panic!("harness: type {}", t),
  }
}

fn dump_value(v: &Value) -> J {
  match v {
    Value::Byte(x) => json!({"t": 1, "v": x}),
    Value::Ascii(x) => json!({"t": 2, "v": x.strings()}),
    Value::Short(x) => json!({"t": 3, "v": x}),
    Value::Long(x) => json!({"t": 4, "v": x}),
    Value::Rational(x) => json!({"t": 5, "v": x.iter().map(|r| json!([r.n, r.d])).collect::<Vec<_>>()}),
    Value::SByte(x) => json!({"t": 6, "v": x}),
    Value::Undefined(x) => json!({"t": 7, "v": x}),
    Value::SShort(x) => json!({"t": 8, "v": x}),
    Value::SLong(x) => json!({"t": 9, "v": x}),
    Value::SRational(x) => json!({"t": 10, "v": x.iter().map(|r| json!([r.n, r.d])).collect::<Vec<_>>()}),
    Value::Float(x) => json!({"t": 11, "v": x.iter().map(|y| y.to_bits()).collect::<Vec<_>>()}),
    Value::Double(x) => json!({"t": 12, "v": x.iter().map(|y| y.to_bits().to_string()).collect::<Vec<_>>()}),
    Value::Unknown(t, x) => json!({"t": t, "unknown": true, "v": x}),
  }
}

fn dump_ifd(i: &IFD) -> J {
  let ent: serde_json::Map<String, J> = i.entries().iter().map(|(k, v)| (k.to_string(), dump_value(&v.value))).collect();
  let sub: serde_json::Map<String, J> = i.sub_ifds().iter().map(|(k, v)| (k.to_string(), J::Array(v.iter().map(dump_ifd).collect()))).collect();
  json!({"ent": ent, "sub": sub})
}

/// A stream without contents.
#[derive(Default)]
struct Far {
  pos: u64,
  last: u64,
}

impl Write for Far {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    self.last = self.pos;
    self.pos += b.len() as u64;
    Ok(b.len())
  }
  fn flush(&mut self) -> std::io::Result<()> {
    Ok(())
  }
}

impl std::io::Seek for Far {
  fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
    self.pos = match to {
      std::io::SeekFrom::Start(x) => x,
      std::io::SeekFrom::Current(x) => self.pos.wrapping_add(x as u64),
      std::io::SeekFrom::End(x) => self.pos.wrapping_add(x as u64),
    };
    Ok(self.pos)
  }
}

fn build_dir<W: Write + std::io::Seek>(h: &J, w: &mut TiffWriter<W>) -> Result<DirectoryWriter, String> {
  let mut d = w.new_directory();
  if let Some(subs) = h["sub"].as_object() {
    for (tag, list) in subs {
      let mut offs = vec![];
      for s in list.as_array().unwrap() {
        offs.push(build_dir(s, w)?.build(w).map_err(e)?);
      }
      d.add_untyped_tag(tag.parse().unwrap(), Value::Long(offs));
    }
  }
  if let Some(blobs) = h["data"].as_array() {
    let (mut o, mut n) = (vec![], vec![]);
    for b in blobs {
      let bytes: Vec<u8> = usv(b).into_iter().map(|x| x as u8).collect();
      o.push(w.write_data(&bytes).map_err(e)?);
      n.push(bytes.len() as u32);
    }
    d.add_untyped_tag(273, Value::Long(o));
    d.add_untyped_tag(279, Value::Long(n));
  }
  if let Some(ent) = h["ent"].as_array() {
    for x in ent {
      d.add_untyped_tag(us(x, "tag") as u16, value_of(x));
    }
  }
  Ok(d)
}

fn inter(i: Intermediate) -> (J, Vec<u8>) {
  let d = i.dim();
  match i {
    Intermediate::Monochrome(p) => (json!({"n": 1, "w": d.w, "h": d.h}), b32f(p.pixels())),
    Intermediate::ThreeColor(p) => (json!({"n": 3, "w": d.w, "h": d.h}), b32f(&p.flatten())),
    Intermediate::FourColor(p) => (json!({"n": 4, "w": d.w, "h": d.h}), b32f(&p.flatten())),
  }
}

fn col<const N: usize>(c: Color2D<f32, N>) -> (J, Vec<u8>)
where
  [f32; N]: Default,
{
  (json!({"n": N, "w": c.width, "h": c.height}), b32f(&c.pixels().iter().flatten().copied().collect::<Vec<f32>>()))
}

fn pump_run(pump: &mut dyn BitPump, ops: &J) -> Vec<J> {
  let mut out = vec![];
  for o in ops.as_array().unwrap() {
    let n = o[1].as_u64().unwrap_or(0) as u32;
    out.push(match o[0].as_str().unwrap() {
      "g" => json!(pump.get_bits(n)),
      "p" => json!(pump.peek_bits(n)),
      "c" => {
        pump.consume_bits(n);
        J::Null
      }
      "s" => json!(pump.get_ibits_sextended(n)),
      "i" => json!(pump.get_ibits(n)),
      "z" => json!(pump.consume_zerobits()),
      x => panic!("harness: {}", x),
    });
  }
  out
}

fn run(h: &J, p: &[u8]) -> R {
  match st(h, "op") {
    "ping" => Ok((json!({"ok": 1}), p.to_vec())),
    "convert" => {
      let src = RawSource::new_from_slice(p);
      let mut out = Cursor::new(Vec::new());
      let name = h["name"].as_str().unwrap_or("test.raw");
      let info = convert_raw_source(&src, &mut out, name, &params(h)).map_err(|x| x.to_string())?;
      let lm = info.last_modified.map(|t| t.duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs() as i64).unwrap_or(-1));
      Ok((json!({"last_modified": lm}), out.into_inner()))
    }
    "decode" => {
      let src = RawSource::new_from_slice(p);
      let src = if h["path"].is_string() { src.with_path(st(h, "path")) } else { src };
      let img = rawler::decode(&src, &RawDecodeParams { image_index: uo(h, "index", 0) }).map_err(|x| x.to_string())?;
      Ok(dump_image(&img))
    }
    "dummy" => {
      let src = RawSource::new_from_slice(p);
      let img = rawler::decode_dummy(&src).map_err(|x| x.to_string())?;
      let mut d = dump_image(&img);
      d.1.clear();
      Ok(d)
    }
    "count" => {
      let src = RawSource::new_from_slice(p);
      let d = rawler::get_decoder(&src).map_err(|x| x.to_string())?;
      Ok((json!({"count": d.raw_image_count().map_err(|x| x.to_string())?, "format": format!("{:?}", d.format_hint())}), vec![]))
    }
    "metadata" => {
      let src = RawSource::new_from_slice(p);
      let d = rawler::get_decoder(&src).map_err(|x| x.to_string())?;
      let m = d.raw_metadata(&src, &RawDecodeParams { image_index: uo(h, "index", 0) }).map_err(|x| x.to_string())?;
      let lm = match m.last_modified() {
        Ok(t) => json!(t.map(|t| t.duration_since(std::time::UNIX_EPOCH).map(|d| d.as_secs() as i64).unwrap_or(-1))),
        Err(x) => json!({"err": x.to_string()}),
      };
      Ok((json!({"meta": serde_json::to_value(&m).map_err(e)?, "last_modified": lm}), vec![]))
    }
    "process" => {
      let q = rawler::imgop::develop::RawProcessingParams {
        crop: crop_mode(st(h, "crop")),
        artist: h["artist"].as_str().map(String::from),
        index: uo(h, "index", 0),
        ..Default::default()
      };
      let mut out = Cursor::new(Vec::new());
      rawler::imgop::develop::process_raw_image(std::path::Path::new(st(h, "file")), &mut out, &q).map_err(|x| x.to_string())?;
      Ok((json!({}), out.into_inner()))
    }
    "tif" => {
      let src = RawSource::new_from_slice(p);
      let d = rawler::get_decoder(&src).map_err(|x| x.to_string())?;
      let q = RawDecodeParams { image_index: uo(h, "index", 0) };
      let img = d.raw_image(&src, &q, false).map_err(|x| x.to_string())?;
      let m = d.raw_metadata(&src, &q).map_err(|x| x.to_string())?;
      let mut out = Cursor::new(Vec::new());
      RawDevelop::default().develop(&img, &m, &mut out).map_err(|x| x.to_string())?;
      Ok((json!({}), out.into_inner()))
    }
    "writedng" => {
      let img = build_image(h, p);
      let mut out = Cursor::new(Vec::new());
      {
        let mut dng = DngWriter::new(&mut out, rawler::dng::DNG_VERSION_V1_4).map_err(e)?;
        let mut raw = if bo(h, "root", false) { dng.subframe_on_root(0) } else { dng.subframe(0) };
        raw
          .raw_image(&img, crop_mode(st(h, "crop")), compression(st(h, "compression")), DngPhotometricConversion::Original, uo(h, "predictor", 1) as u8)
          .map_err(e)?;
        raw.finalize().map_err(e)?;
        dng.load_base_tags(&img).map_err(e)?;
        dng.close().map_err(e)?;
      }
      Ok((json!({}), out.into_inner()))
    }
    "ljenc" => {
      let d = u16s(p);
      let c = LjpegCompressor::new(&d, us(h, "w"), us(h, "h"), us(h, "comp"), us(h, "bps") as u8, us(h, "pred") as u8, uo(h, "pt", 0) as u8, uo(h, "pad", 0)).map_err(|x| x.to_string())?;
      Ok((json!({}), c.encode().map_err(|x| x.to_string())?))
    }
    "ljdec" => {
      let d = LjpegDecompressor::new_full(p, bo(h, "dng_bug", false), bo(h, "csfix", false))?;
      let (w, hh) = (us(h, "w"), us(h, "h"));
      let (x, sw) = (uo(h, "x", 0), uo(h, "sw", w));
      let mut out = vec![uo(h, "fill", 0) as u16; (x + w).max(sw) * hh];
      d.decode(&mut out, x, sw, w, hh, false)?;
      Ok((json!({"w": d.width(), "h": d.height(), "comp": d.components()}), b16(&out)))
    }
    "tiles" => {
      let d = u16s(p);
      let t = ImageTiler::new(&d, us(h, "w"), us(h, "h"), us(h, "cpp"), us(h, "tw"), us(h, "th"));
      let mut out = vec![];
      for i in 0..t.tile_count() {
        out.extend(b16(&t.build_tile(i)));
      }
      Ok((json!({"n": t.tile_count(), "cols": t.tile_cols(), "rows": t.tile_rows()}), out))
    }
    "untile" => {
      // split a buffer into mutable tiles and write the payload through them
      use rawler::tiles::TilesMut;
      let (w, hh, cpp, tw, th) = (us(h, "w"), us(h, "h"), us(h, "cpp"), us(h, "tw"), us(h, "th"));
      let d = u16s(p);
      let mut img = vec![0u16; w * hh * cpp];
      let mut n = 0;
      let mut lens = vec![];
      {
        let tiles = img.as_mut_slice().into_tiles_iter_mut(w, cpp, tw, th).map_err(|x| format!("{:?}", x))?;
        for t in tiles {
          for line in t.into_iter_mut() {
            lens.push(line.len());
            for s in line.iter_mut() {
              *s = d[n];
              n += 1;
            }
          }
        }
      }
      Ok((json!({"used": n, "lens": lens}), b16(&img)))
    }
    "pump" => {
      let out = match st(h, "kind") {
        "lsb" => pump_run(&mut BitPumpLSB::new(p), &h["ops"]),
        "msb" => pump_run(&mut BitPumpMSB::new(p), &h["ops"]),
        "msb32" => pump_run(&mut BitPumpMSB32::new(p), &h["ops"]),
        "jpeg" => pump_run(&mut BitPumpJPEG::new(p), &h["ops"]),
        x => panic!("harness: {}", x),
      };
      Ok((json!({"out": out}), vec![]))
    }
    "packed" => {
      let en = if st(h, "endian") == "big" { Endian::Big } else { Endian::Little };
      let dec = PackedDecompressor::new(us(h, "bps") as u32, en);
      let (w, hh) = (us(h, "w"), us(h, "h"));
      let px = match h["strip"].as_u64() {
        Some(s) => decompress_strips::<u16, _>(p, w, hh, false, s as usize, dec)?,
        None => decompress_lines::<u16, _>(p, w, hh, false, dec)?,
      };
      Ok((json!({}), b16(px.pixels())))
    }
    "unwrapped" => {
      let src = RawSource::new_from_slice(p);
      match rawler::decode_unwrapped(&src).map_err(|x| x.to_string())? {
        RawImageData::Integer(v) => Ok((json!({"data": "u16"}), b16(&v))),
        RawImageData::Float(v) => Ok((json!({"data": "f32"}), b32f(&v))),
      }
    }
    "cfa" => {
      let c = CFA::new(st(h, "pat"));
      let mut o = serde_json::Map::new();
      let c = if h["shift"].is_array() {
        let s = usv(&h["shift"]);
        c.shift(s[0], s[1])
      } else {
        c
      };
      o.insert("name".into(), json!(c.name));
      o.insert("w".into(), json!(c.width));
      o.insert("h".into(), json!(c.height));
      o.insert("flat".into(), json!(c.flat_pattern()));
      o.insert("unique".into(), json!(c.unique_colors()));
      o.insert("rgb".into(), json!([c.is_rgb(), c.is_rgbe(), c.is_cygm(), c.is_valid()]));
      if let Some(a) = h["at"].as_array() {
        o.insert("at".into(), json!(a.iter().map(|q| c.color_at(q[0].as_u64().unwrap() as usize, q[1].as_u64().unwrap() as usize)).collect::<Vec<_>>()));
      }
      if let Some(a) = h["planes"].as_str() {
        let pc = PlaneColor::new(a);
        o.insert("planes".into(), json!({"n": pc.plane_count()}));
      }
      Ok((J::Object(o), vec![]))
    }
    "rect" => {
      let r = mkrect(&h["r"]).unwrap();
      let (w, hh) = (us(h, "w"), us(h, "h"));
      let off = r.as_ltrb_offsets(w, hh);
      let back = Rect::new_with_borders(Dim2::new(w, hh), &off);
      let dngb = Rect::new_with_dng(&r.as_tlbr());
      let mut o = json!({"ltrb": r.as_ltrb(), "tlbr": r.as_tlbr(), "off": off, "tlbroff": r.as_tlbr_offsets(w, hh), "back": rect(&back), "dng": rect(&dngb),
        "area": rawler::dng::rect_to_dng_area(&r), "empty": r.is_empty()});
      if let Some(m) = mkrect(&h["master"]) {
        o["adapt"] = rect(&r.adapt(&m));
      }
      Ok((o, vec![]))
    }
    "crop" => {
      let d = u16s(p);
      let (w, hh) = (us(h, "w"), us(h, "h"));
      let r = mkrect(&h["r"]).unwrap();
      let a = rawler::imgop::crop(&d, Dim2::new(w, hh), r);
      let b = PixU16::new_with(d.clone(), w, hh).crop(r);
      let c = PixU16::new_with(d, w, hh).into_crop(r);
      Ok((json!({"same": a == b.pixels() && a == c.pixels(), "w": b.width, "h": b.height}), b16(&a)))
    }
    "rotate" => {
      let d = u16s(p);
      let (w, hh) = (us(h, "w"), us(h, "h"));
      let c = Color2D::<u16, 1>::new_with(d.into_iter().map(|x| [x]).collect(), w, hh);
      let r = match us(h, "deg") {
        90 => c.rotate_90cw(),
        180 => c.rotate_180(),
        _ => c.rotate_90ccw(),
      };
      Ok((json!({"w": r.width, "h": r.height}), b16(&r.flatten())))
    }
    "orient" => {
      let o = Orientation::from_u16(us(h, "v") as u16);
      let f = o.to_flips();
      Ok((json!({"u16": o.to_u16(), "flips": [f.0, f.1, f.2], "back": Orientation::from_flips(f).to_u16()}), vec![]))
    }
    "black" => {
      let lv: Vec<u32> = usv(&h["levels"]).into_iter().map(|x| x as u32).collect();
      let b = BlackLevel::new(&lv, us(h, "w"), us(h, "h"), us(h, "cpp"));
      let s = usv(&h["shift"]);
      let b = b.shift(s[0], s[1]);
      Ok((json!({"levels": b.levels.iter().map(|x| x.n).collect::<Vec<_>>(), "w": b.width, "h": b.height, "cpp": b.cpp}), vec![]))
    }
    "tiffwrite" => {
      let mut buf = Cursor::new(Vec::new());
      {
        let mut w = TiffWriter::new(&mut buf).map_err(e)?;
        let d = build_dir(h, &mut w)?;
        w.build(d).map_err(e)?;
      }
      Ok((json!({}), buf.into_inner()))
    }
    "tiffbig" => {
      // a writer whose stream stands far beyond the start
      let mut w = TiffWriter::new(Far::default()).map_err(e)?;
      w.writer.seek(std::io::SeekFrom::Start(h["at"].as_u64().unwrap())).map_err(e)?;
      let o = w.write_data(&[1, 2, 3, 4, 5]).map_err(e)?;
      Ok((json!({"offset": o, "pos": w.writer.last}), vec![]))
    }
    "bmff" => {
      let b = formats::bmff::Bmff::new_buf(p).map_err(e)?;
      let n = usv(&h["samples"]);
      let locs: Vec<J> = b
        .filebox
        .moov
        .traks
        .iter()
        .zip(n)
        .map(|(t, n)| json!((1..=n as u32).map(|i| t.mdia.minf.stbl.get_sample_offset(i)).collect::<Vec<_>>()))
        .collect();
      Ok((json!({"file": serde_json::to_value(&b.filebox).map_err(e)?, "locs": locs}), vec![]))
    }
    "jfif" => {
      use formats::jfif::{Jfif, Payload, Segment};
      let j = Jfif::parse(Cursor::new(p)).map_err(e)?;
      let segs: Vec<J> = j
        .segments
        .iter()
        .map(|s| match s {
          Segment::SOI { offset } => json!(["soi", offset]),
          Segment::APP0 { offset, app0 } => json!(["app0", offset, app0.version, app0.density_units, app0.xdensity, app0.ydensity, app0.xthumbnail, app0.ythumbnail, app0.thumbnail]),
          Segment::APP1 { offset, app1 } => match &app1.payload {
            Payload::Exif(i) => json!(["exif", offset, dump_ifd(i)]),
            Payload::Xpacket(x) => json!(["xmp", offset, x]),
            Payload::Unknown => json!(["app1", offset]),
          },
          Segment::SOS { offset, .. } => json!(["sos", offset]),
          Segment::EOI => json!(["eoi"]),
          Segment::Unknown { offset, marker } => json!(["unknown", offset, marker]),
        })
        .collect();
      Ok((json!({"segs": segs, "exif": j.exif_ifd().map(dump_ifd), "xmp": j.xpacket()}), vec![]))
    }
    "ciff" => {
      use formats::ciff::{CiffIFD, CiffTag};
      let src = RawSource::new_from_slice(p);
      if !formats::ciff::is_ciff(&src) {
        return Err("not CIFF".into());
      }
      let i = CiffIFD::new_file(&src)?;
      let tags = [CiffTag::ColorInfo1, CiffTag::MakeModel, CiffTag::ColorInfo2, CiffTag::WhiteBalance, CiffTag::SensorInfo, CiffTag::DecoderTable];
      let found: Vec<J> = tags
        .iter()
        .map(|t| match i.find_entry(*t) {
          Some(x) => json!({"tag": x.tag, "typ": x.typ, "count": x.count, "data": x.data, "off": x.data_offset}),
          None => J::Null,
        })
        .collect();
      Ok((json!({"found": found}), vec![]))
    }
    "ifdroot" => {
      let sub: Vec<u16> = usv(&h["subtags"]).into_iter().map(|x| x as u16).collect();
      let mut c = Cursor::new(p);
      let r = IFD::new_root_with_correction(&mut c, 0, uo(h, "base", 0) as u32, h["corr"].as_i64().unwrap_or(0) as i32, uo(h, "max", 10), &sub).map_err(e)?;
      let le = matches!(r.endian, rawler::bits::Endian::Little);
      let mut chain = vec![dump_ifd(&r)];
      chain.extend(r.chain.iter().map(dump_ifd));
      Ok((json!({"chain": chain, "le": le}), vec![]))
    }
    "tiffread" => {
      let sub: Vec<u16> = usv(&h["subtags"]).into_iter().map(|x| x as u16).collect();
      let base = uo(h, "base", 0) as u32;
      let corr = h["corr"].as_i64().unwrap_or(0) as i32;
      let max = h["max"].as_u64().map(|x| x as usize);
      let mut c = Cursor::new(p);
      c.set_position(base as u64);
      let r = if sub.is_empty() { GenericTiffReader::new_with_buffer(p, base, corr, max).map_err(e)? } else { GenericTiffReader::new(&mut c, base, corr, max, &sub).map_err(e)? };
      let chain: Vec<J> = r.chains().iter().map(dump_ifd).collect();
      Ok((json!({"chain": chain, "le": r.little_endian()}), vec![]))
    }
    "origcompress" => {
      let mut c = Cursor::new(p);
      let start = uo(h, "start", 0);
      c.set_position(start as u64);
      let o = OriginalCompressed::compress(&mut c).map_err(e)?;
      let mut out = vec![];
      o.write_to_stream(&mut out).map_err(e)?;
      Ok((json!({"digest": o.digest()}), out))
    }
    "origdecompress" => {
      let mut c = Cursor::new(p);
      let dg: Option<[u8; 16]> = h["digest"].as_array().map(|a| {
        let v: Vec<u8> = a.iter().map(|x| x.as_u64().unwrap() as u8).collect();
        v.try_into().unwrap()
      });
      let o = OriginalCompressed::new(&mut c, dg).map_err(e)?;
      let mut out = vec![];
      let r = o.decompress(&mut out, bo(h, "verify", true));
      match r {
        Ok(n) => Ok((json!({"n": n}), out)),
        Err(x) => Ok((json!({"fail": x.to_string()}), out)),
      }
    }
    "scale" => {
      let mut img = build_image(h, p);
      img.apply_scaling().map_err(e)?;
      Ok(dump_image(&img))
    }
    "demosaic" => {
      let (w, hh) = (us(h, "w"), us(h, "h"));
      let px = PixF32::new_with(f32s(p), w, hh);
      let cfa = CFA::new(st(h, "cfa"));
      let pc = PlaneColor::new(h["planes"].as_str().unwrap_or("RGB"));
      let roi = mkrect(&h["roi"]).unwrap_or(Rect::new(Point::zero(), Dim2::new(w, hh)));
      use rawler::imgop::sensor::{bayer, xtrans};
      Ok(match st(h, "alg") {
        "ppg" => col::<3>(bayer::ppg::PPGDemosaic::new().demosaic(&px, &cfa, &pc, roi)),
        "bilinear4" => col::<4>(bayer::bilinear::Bilinear4Channel::new().demosaic(&px, &cfa, &pc, roi)),
        "super3" => col::<3>(bayer::superpixel::Superpixel3Channel::new().demosaic(&px, &cfa, &pc, roi)),
        "super4" => col::<4>(bayer::superpixel::Superpixel4Channel::new().demosaic(&px, &cfa, &pc, roi)),
        "xbilinear" => col::<3>(xtrans::bilinear::XTransBilinearDemosaic::new().demosaic(&px, &cfa, &pc, roi)),
        "markesteijn" => col::<3>(xtrans::markesteijn::XTransMarkesteijnDemosaic::new(uo(h, "passes", 1)).demosaic(&px, &cfa, &pc, roi)),
        x => panic!("harness: {}", x),
      })
    }
    "develop" => {
      let img = if h["w"].is_null() {
        let src = RawSource::new_from_slice(p);
        rawler::decode(&src, &RawDecodeParams::default()).map_err(|x| x.to_string())?
      } else {
        build_image(h, p)
      };
      let dev = match h["steps"].as_array() {
        None => RawDevelop::default(),
        Some(a) => {
          let s: Vec<ProcessingStep> = a
            .iter()
            .map(|x| match x.as_str().unwrap() {
              "rescale" => ProcessingStep::Rescale,
              "demosaic" => ProcessingStep::Demosaic,
              "fuji" => ProcessingStep::FujiRotate,
              "cropactive" => ProcessingStep::CropActiveArea,
              "wb" => ProcessingStep::WhiteBalance,
              "calibrate" => ProcessingStep::Calibrate,
              "cropdefault" => ProcessingStep::CropDefault,
              "srgb" => ProcessingStep::SRgb,
              x => panic!("harness: {}", x),
            })
            .collect();
          RawDevelop::new_with(&s)
        }
      };
      Ok(inter(dev.develop_intermediate(&img).map_err(|x| x.to_string())?))
    }
    x => Err(format!("unknown op {}", x)),
  }
}

fn main() {
  let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
  let l2 = last.clone();
  std::panic::set_hook(Box::new(move |i| {
    if let Ok(mut g) = l2.lock() {
      *g = i.to_string();
    }
  }));
  rawler::force_initialization();
  let _ = formats::tiff::TiffError::General(String::new());
  let mut inp = std::io::stdin().lock();
  let mut out = std::io::stdout().lock();
  loop {
    let mut n = [0u8; 4];
    if inp.read_exact(&mut n).is_err() {
      return;
    }
    let mut hb = vec![0u8; u32::from_le_bytes(n) as usize];
    inp.read_exact(&mut hb).unwrap();
    inp.read_exact(&mut n).unwrap();
    let mut p = vec![0u8; u32::from_le_bytes(n) as usize];
    inp.read_exact(&mut p).unwrap();
    let h: J = serde_json::from_slice(&hb).unwrap();
    let t0 = std::time::Instant::now();
    let r = catch_unwind(AssertUnwindSafe(|| run(&h, &p)));
    let us = t0.elapsed().as_micros() as u64;
    let (j, b) = match r {
      Ok(Ok((mut j, b))) => {
        j["us"] = json!(us);
        (j, b)
      }
      Ok(Err(x)) => (json!({"err": x, "us": us}), vec![]),
      Err(_) => (json!({"panic": last.lock().map(|g| g.clone()).unwrap_or_default(), "us": us}), vec![]),
    };
    let js = serde_json::to_vec(&j).unwrap();
    out.write_all(&(js.len() as u32).to_le_bytes()).unwrap();
    out.write_all(&js).unwrap();
    out.write_all(&(b.len() as u32).to_le_bytes()).unwrap();
    out.write_all(&b).unwrap();
    out.flush().unwrap();
  }
}
