//! Footprints: abstract document <-> library objects, and footprint operations.

use crate::json::{driver_error, obj, opt, s, J};
use kicad_parse_gen::footprint::*;
use kicad_parse_gen::Bound;

/// length unit of integer documents: 1/12800 mm (or degree)
pub const UNIT: f64 = 12800.0;

/// how numbers appear in projected documents
#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Txt,
    Unit,
}

pub fn num(v: f64, m: Mode) -> J {
    match m {
        Mode::Txt => s(format!("{}", v)),
        Mode::Unit => {
            let u = v * UNIT;
            let r = u.round();
            if (u - r).abs() > 1e-3 || r.abs() > 2.0e9 {
                s(format!("off-grid:{}", v))
            } else {
                J::N(r as i64)
            }
        }
    }
}

pub fn float(j: &J) -> f64 {
    match *j {
        J::S(ref t) => t.parse().unwrap_or_else(|_| driver_error(&format!("bad float {}", t))),
        J::N(n) => n as f64 / UNIT,
        _ => driver_error("expected float"),
    }
}

pub fn first(j: &J) -> Option<&J> {
    j.arr().first()
}

// ---- layers -------------------------------------------------------------------------------------

pub fn b_layer(j: &J) -> Layer {
    let side = match j.get("s").str() {
        "F" => LayerSide::Front,
        "B" => LayerSide::Back,
        "Dwgs" => LayerSide::Dwgs,
        "Cmts" => LayerSide::Cmts,
        "Eco1" => LayerSide::Eco1,
        "Eco2" => LayerSide::Eco2,
        "Edge" => LayerSide::Edge,
        "*" => LayerSide::Both,
        "In1" => LayerSide::In1,
        "In2" => LayerSide::In2,
        "" => LayerSide::None,
        x => driver_error(&format!("bad layer side {}", x)),
    };
    let t = match j.get("t").str() {
        "Cu" => LayerType::Cu,
        "Paste" => LayerType::Paste,
        "Mask" => LayerType::Mask,
        "SilkS" => LayerType::SilkS,
        "User" => LayerType::User,
        "Adhes" => LayerType::Adhes,
        "Cuts" => LayerType::Cuts,
        "CrtYd" => LayerType::CrtYd,
        "Fab" => LayerType::Fab,
        "Margin" => LayerType::Margin,
        x if x.starts_with('~') => LayerType::Other(x[1..].to_string()),
        x => driver_error(&format!("bad layer type {}", x)),
    };
    Layer { side, t }
}

pub fn p_layer(l: &Layer) -> J {
    let side = match l.side {
        LayerSide::Front => "F",
        LayerSide::Back => "B",
        LayerSide::Dwgs => "Dwgs",
        LayerSide::Cmts => "Cmts",
        LayerSide::Eco1 => "Eco1",
        LayerSide::Eco2 => "Eco2",
        LayerSide::Edge => "Edge",
        LayerSide::Both => "*",
        LayerSide::In1 => "In1",
        LayerSide::In2 => "In2",
        LayerSide::None => "",
    };
    let t = match l.t {
        LayerType::Cu => "Cu".to_string(),
        LayerType::Paste => "Paste".to_string(),
        LayerType::Mask => "Mask".to_string(),
        LayerType::SilkS => "SilkS".to_string(),
        LayerType::User => "User".to_string(),
        LayerType::Adhes => "Adhes".to_string(),
        LayerType::Cuts => "Cuts".to_string(),
        LayerType::CrtYd => "CrtYd".to_string(),
        LayerType::Fab => "Fab".to_string(),
        LayerType::Margin => "Margin".to_string(),
        LayerType::Other(ref x) => format!("~{}", x),
    };
    obj(vec![("s", s(side)), ("t", s(t))])
}

pub fn b_layers(j: &J) -> Layers {
    let mut l = Layers::default();
    for x in j.arr() {
        l.append(b_layer(x))
    }
    l
}

pub fn p_layers(l: &Layers) -> J {
    J::A(l.layers.iter().map(p_layer).collect())
}

// ---- points -------------------------------------------------------------------------------------

fn xytype(t: &str) -> XyType {
    match t {
        "xy" => XyType::Xy,
        "start" => XyType::Start,
        "end" => XyType::End,
        "size" => XyType::Size,
        "center" => XyType::Center,
        "rect_delta" => XyType::RectDelta,
        x => driver_error(&format!("bad xy type {}", x)),
    }
}

pub fn b_xy(j: &J) -> Xy {
    Xy::new(float(j.get("x")), float(j.get("y")), xytype(j.get("t").str()))
}

pub fn p_xy(x: &Xy, m: Mode) -> J {
    let t = match x.t {
        XyType::Xy => "xy",
        XyType::Start => "start",
        XyType::End => "end",
        XyType::Size => "size",
        XyType::Center => "center",
        XyType::RectDelta => "rect_delta",
    };
    obj(vec![("t", s(t)), ("x", num(x.x, m)), ("y", num(x.y, m))])
}

pub fn b_pts(j: &J) -> Pts {
    let mut p = Pts::default();
    for x in j.arr() {
        p.elements.push(b_xy(x))
    }
    p
}

pub fn p_pts(p: &Pts, m: Mode) -> J {
    J::A(p.elements.iter().map(|x| p_xy(x, m)).collect())
}

pub fn b_at(j: &J) -> At {
    At::new(float(j.get("x")), float(j.get("y")), float(j.get("rot")))
}

pub fn p_at(a: &At, m: Mode) -> J {
    obj(vec![("x", num(a.x, m)), ("y", num(a.y, m)), ("rot", num(a.rot, m))])
}

fn b_xyz(j: &J) -> Xyz {
    Xyz::new(float(j.get("x")), float(j.get("y")), float(j.get("z")))
}

fn p_xyz(a: &Xyz, m: Mode) -> J {
    obj(vec![("x", num(a.x, m)), ("y", num(a.y, m)), ("z", num(a.z, m))])
}

// ---- texts --------------------------------------------------------------------------------------

pub fn b_effects(j: &J) -> Effects {
    let mut f = Font::default();
    f.size.x = float(j.get("sx"));
    f.size.y = float(j.get("sy"));
    f.thickness = float(j.get("thickness"));
    f.italic = j.gb("italic");
    let justify = match j.get("justify").str() {
        "none" => None,
        "mirror" => Some(Justify::Mirror),
        "left" => Some(Justify::Left),
        "right" => Some(Justify::Right),
        x => driver_error(&format!("bad justify {}", x)),
    };
    Effects::from_font(f, justify)
}

pub fn p_effects(e: &Effects, m: Mode) -> J {
    let j = match e.justify {
        None => "none",
        Some(Justify::Mirror) => "mirror",
        Some(Justify::Left) => "left",
        Some(Justify::Right) => "right",
    };
    obj(vec![
        ("sx", num(e.font.size.x, m)),
        ("sy", num(e.font.size.y, m)),
        ("thickness", num(e.font.thickness, m)),
        ("italic", J::B(e.font.italic)),
        ("justify", s(j)),
    ])
}

fn b_text(j: &J) -> FpText {
    let mut t = FpText::new(j.gs("name"), j.gs("value"));
    t.at = b_at(j.get("at"));
    t.set_layer(&b_layer(j.get("layer")));
    t.set_effects(&b_effects(j.get("effects")));
    t.hide = j.gb("hide");
    t
}

pub fn p_text(t: &FpText, m: Mode) -> J {
    obj(vec![
        ("k", s("fp_text")),
        ("name", s(t.name.clone())),
        ("value", s(t.value.clone())),
        ("at", p_at(&t.at, m)),
        ("layer", p_layer(&t.layer)),
        ("effects", p_effects(&t.effects, m)),
        ("hide", J::B(t.hide)),
    ])
}

// ---- pads ---------------------------------------------------------------------------------------

pub fn b_drill(j: &J) -> Drill {
    let mut d = Drill::default();
    d.shape = first(j.get("shape")).map(|x| x.string());
    d.width = float(j.get("width"));
    d.height = float(j.get("height"));
    d.offset_x = float(j.get("ox"));
    d.offset_y = float(j.get("oy"));
    d
}

fn p_drill(d: &Drill, m: Mode) -> J {
    obj(vec![
        ("shape", opt(d.shape.clone().map(s))),
        ("width", num(d.width, m)),
        ("height", num(d.height, m)),
        ("ox", num(d.offset_x, m)),
        ("oy", num(d.offset_y, m)),
    ])
}

fn b_pad(j: &J) -> Pad {
    let t = match j.get("t").str() {
        "smd" => PadType::Smd,
        "thru_hole" => PadType::Pth,
        "np_thru_hole" => PadType::NpPth,
        x => driver_error(&format!("bad pad type {}", x)),
    };
    let shape = match j.get("shape").str() {
        "rect" => PadShape::Rect,
        "circle" => PadShape::Circle,
        "oval" => PadShape::Oval,
        "trapezoid" => PadShape::Trapezoid,
        x => driver_error(&format!("bad pad shape {}", x)),
    };
    let mut p = Pad::new(j.gs("name"), t, shape);
    p.at = b_at(j.get("at"));
    p.size = b_xy(j.get("size"));
    p.rect_delta = first(j.get("rect_delta")).map(b_xy);
    if let Some(d) = first(j.get("drill")) {
        p.set_drill(b_drill(d))
    }
    p.layers = b_layers(j.get("layers"));
    if let Some(n) = first(j.get("net")) {
        p.set_net(Net {
            num: n.gi("num"),
            name: n.gs("name").into(),
        })
    }
    p.zone_connect = first(j.get("zone_connect")).map(|x| x.int());
    p.solder_paste_margin = first(j.get("spm")).map(float);
    p.solder_mask_margin = first(j.get("smm")).map(float);
    p.clearance = first(j.get("clearance")).map(float);
    p.thermal_gap = first(j.get("thermal_gap")).map(float);
    p
}

pub fn p_pad(p: &Pad, m: Mode) -> J {
    let t = match p.t {
        PadType::Smd => "smd",
        PadType::Pth => "thru_hole",
        PadType::NpPth => "np_thru_hole",
    };
    let shape = match p.shape {
        PadShape::Rect => "rect",
        PadShape::Circle => "circle",
        PadShape::Oval => "oval",
        PadShape::Trapezoid => "trapezoid",
    };
    obj(vec![
        ("k", s("pad")),
        ("name", s(p.name.clone())),
        ("t", s(t)),
        ("shape", s(shape)),
        ("at", p_at(&p.at, m)),
        ("size", p_xy(&p.size, m)),
        ("rect_delta", opt(p.rect_delta.as_ref().map(|x| p_xy(x, m)))),
        ("drill", opt(p.drill.as_ref().map(|x| p_drill(x, m)))),
        ("layers", p_layers(&p.layers)),
        (
            "net",
            opt(p.net.as_ref().map(|n| obj(vec![("num", s(n.num.to_string())), ("name", s(n.name.0.clone()))]))),
        ),
        ("zone_connect", opt(p.zone_connect.map(|x| s(x.to_string())))),
        ("spm", opt(p.solder_paste_margin.map(|x| num(x, m)))),
        ("smm", opt(p.solder_mask_margin.map(|x| num(x, m)))),
        ("clearance", opt(p.clearance.map(|x| num(x, m)))),
        ("thermal_gap", opt(p.thermal_gap.map(|x| num(x, m)))),
    ])
}

// ---- elements -----------------------------------------------------------------------------------

pub fn b_elem(j: &J) -> Element {
    let v = || j.gs("v");
    match j.get("k").str() {
        "solder_mask_margin" => Element::SolderMaskMargin(float(j.get("v"))),
        "clearance" => Element::Clearance(float(j.get("v"))),
        "layer" => Element::Layer(b_layer(j.get("v"))),
        "descr" => Element::Descr(v()),
        "tags" => Element::Tags(v()),
        "attr" => Element::Attr(v()),
        "path" => Element::Path(v()),
        "tedit" => Element::TEdit(i64::from_str_radix(&v(), 16).unwrap()),
        "tstamp" => Element::TStamp(i64::from_str_radix(&v(), 16).unwrap()),
        "locked" => Element::Locked,
        "at" => Element::At(b_at(j)),
        "fp_text" => Element::FpText(b_text(j)),
        "pad" => Element::Pad(b_pad(j)),
        "fp_poly" => {
            let mut e = FpPoly::default();
            e.pts = b_pts(j.get("pts"));
            e.layer = b_layer(j.get("layer"));
            e.width = float(j.get("width"));
            Element::FpPoly(e)
        }
        "fp_line" => {
            let mut e = FpLine::default();
            e.start = b_xy(j.get("start"));
            e.end = b_xy(j.get("end"));
            e.layer = b_layer(j.get("layer"));
            e.width = float(j.get("width"));
            Element::FpLine(e)
        }
        "fp_circle" => {
            let mut e = FpCircle::default();
            e.center = b_xy(j.get("center"));
            e.end = b_xy(j.get("end"));
            e.layer = b_layer(j.get("layer"));
            e.width = float(j.get("width"));
            Element::FpCircle(e)
        }
        "fp_arc" => {
            let mut e = FpArc::default();
            e.start = b_xy(j.get("start"));
            e.end = b_xy(j.get("end"));
            e.angle = float(j.get("angle"));
            e.layer = b_layer(j.get("layer"));
            e.width = float(j.get("width"));
            Element::FpArc(e)
        }
        "model" => Element::Model(Model {
            name: j.gs("name"),
            at: b_xyz(j.get("at")),
            scale: b_xyz(j.get("scale")),
            rotate: b_xyz(j.get("rotate")),
        }),
        x => driver_error(&format!("bad footprint element {}", x)),
    }
}

pub fn p_line(e: &FpLine, m: Mode) -> J {
    obj(vec![
        ("k", s("fp_line")),
        ("start", p_xy(&e.start, m)),
        ("end", p_xy(&e.end, m)),
        ("layer", p_layer(&e.layer)),
        ("width", num(e.width, m)),
    ])
}

pub fn p_elem(e: &Element, m: Mode) -> J {
    let kv = |k: &str, v: J| obj(vec![("k", s(k)), ("v", v)]);
    match *e {
        Element::SolderMaskMargin(x) => kv("solder_mask_margin", num(x, m)),
        Element::Clearance(x) => kv("clearance", num(x, m)),
        Element::Layer(ref l) => kv("layer", p_layer(l)),
        Element::Descr(ref x) => kv("descr", s(x.clone())),
        Element::Tags(ref x) => kv("tags", s(x.clone())),
        Element::Attr(ref x) => kv("attr", s(x.clone())),
        Element::Path(ref x) => kv("path", s(x.clone())),
        Element::TEdit(x) => kv("tedit", s(format!("{:X}", x))),
        Element::TStamp(x) => kv("tstamp", s(format!("{:X}", x))),
        Element::Locked => obj(vec![("k", s("locked"))]),
        Element::At(ref a) => obj(vec![("k", s("at")), ("x", num(a.x, m)), ("y", num(a.y, m)), ("rot", num(a.rot, m))]),
        Element::FpText(ref t) => p_text(t, m),
        Element::Pad(ref p) => p_pad(p, m),
        Element::FpPoly(ref e) => obj(vec![
            ("k", s("fp_poly")),
            ("pts", p_pts(&e.pts, m)),
            ("layer", p_layer(&e.layer)),
            ("width", num(e.width, m)),
        ]),
        Element::FpLine(ref e) => p_line(e, m),
        Element::FpCircle(ref e) => obj(vec![
            ("k", s("fp_circle")),
            ("center", p_xy(&e.center, m)),
            ("end", p_xy(&e.end, m)),
            ("layer", p_layer(&e.layer)),
            ("width", num(e.width, m)),
        ]),
        Element::FpArc(ref e) => obj(vec![
            ("k", s("fp_arc")),
            ("start", p_xy(&e.start, m)),
            ("end", p_xy(&e.end, m)),
            ("angle", num(e.angle, m)),
            ("layer", p_layer(&e.layer)),
            ("width", num(e.width, m)),
        ]),
        Element::Model(ref e) => obj(vec![
            ("k", s("model")),
            ("name", s(e.name.clone())),
            ("at", p_xyz(&e.at, m)),
            ("scale", p_xyz(&e.scale, m)),
            ("rotate", p_xyz(&e.rotate, m)),
        ]),
    }
}

pub fn b_module(j: &J) -> Module {
    let mut m = Module::new(j.gs("name"));
    for e in j.get("el").arr() {
        m.append(b_elem(e))
    }
    m
}

pub fn p_module(md: &Module, m: Mode) -> J {
    obj(vec![
        ("name", s(md.name.clone())),
        ("el", J::A(md.elements.iter().map(|e| p_elem(e, m)).collect())),
    ])
}

pub fn p_bound(b: &Bound, m: Mode) -> J {
    // the corners of an empty box mean nothing
    let empty = Bound { x1: 0.0, y1: 0.0, x2: 0.0, y2: 0.0, is_bounded: false };
    let b = if b.is_bounded { b } else { &empty };
    obj(vec![
        ("b", J::B(b.is_bounded)),
        ("x1", num(b.x1, m)),
        ("y1", num(b.y1, m)),
        ("x2", num(b.x2, m)),
        ("y2", num(b.y2, m)),
    ])
}
