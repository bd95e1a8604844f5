//! Schematics and symbol libraries: abstract document <-> library objects.

use crate::fp::{first, float, num, Mode};
use crate::json::{driver_error, obj, opt, s, J};
use kicad_parse_gen::checkfix::CheckFixData;
use kicad_parse_gen::schematic::*;
use kicad_parse_gen::symbol_lib as sl;

fn n(x: i64) -> J {
    s(x.to_string())
}
fn f(x: f64) -> J {
    num(x, Mode::Txt)
}

pub fn b_orient(j: &J) -> Orientation {
    match j.str() {
        "H" => Orientation::Horizontal,
        "V" => Orientation::Vertical,
        x => driver_error(&format!("bad orientation {}", x)),
    }
}
fn p_orient(o: &Orientation) -> J {
    s(match *o {
        Orientation::Horizontal => "H",
        Orientation::Vertical => "V",
    })
}
pub fn b_just(j: &J) -> Justify {
    match j.str() {
        "L" => Justify::Left,
        "R" => Justify::Right,
        "C" => Justify::Center,
        "B" => Justify::Bottom,
        "T" => Justify::Top,
        x => driver_error(&format!("bad justify {}", x)),
    }
}
fn p_just(o: &Justify) -> J {
    s(match *o {
        Justify::Left => "L",
        Justify::Right => "R",
        Justify::Center => "C",
        Justify::Bottom => "B",
        Justify::Top => "T",
    })
}

pub fn b_field(j: &J) -> ComponentField {
    let mut c = ComponentField::new_from(
        j.gi("i"),
        j.gs("name"),
        j.gs("value"),
        float(j.get("x")),
        float(j.get("y")),
    );
    c.orientation = b_orient(j.get("o"));
    c.size = j.gi("size");
    c.visible = j.gb("visible");
    c.hjustify = b_just(j.get("h"));
    c.vjustify = b_just(j.get("v"));
    c.italic = j.gb("italic");
    c.bold = j.gb("bold");
    c
}

pub fn p_field(c: &ComponentField) -> J {
    obj(vec![
        ("i", n(c.i)),
        ("value", s(c.value.clone())),
        ("o", p_orient(&c.orientation)),
        ("x", f(c.x)),
        ("y", f(c.y)),
        ("size", n(c.size)),
        ("visible", J::B(c.visible)),
        ("h", p_just(&c.hjustify)),
        ("v", p_just(&c.vjustify)),
        ("italic", J::B(c.italic)),
        ("bold", J::B(c.bold)),
        ("name", s(c.name.clone())),
    ])
}

/// the rotation matrix has no public constructor: obtain it by reading a component
fn rotation(r: &[J]) -> ComponentRotation {
    let t = format!(
        "EESchema Schematic File Version 2\nEELAYER 25 0\nEELAYER END\n$Comp\nL A B\n\t1    0    0\n\t{} {} {} {}\n$EndComp\n",
        r[0].str(),
        r[1].str(),
        r[2].str(),
        r[3].str()
    );
    parse_str(&t).unwrap().components()[0].rotation.clone()
}

pub fn b_comp(j: &J) -> Component {
    let mut c = Component::default();
    c.name = j.gs("name");
    c.reference = j.gs("ref");
    c.u = j.gs("u");
    c.x = j.gi("x");
    c.y = j.gi("y");
    c.ar_path = j.get("ar").arr().iter().map(|x| x.string()).collect();
    c.fields = j.get("fields").arr().iter().map(b_field).collect();
    let r = j.get("rot").arr();
    if r.iter().any(|x| x.str() != "0") {
        c.rotation = rotation(r);
    }
    c
}

pub fn p_comp(c: &Component) -> J {
    // the rotation matrix is only observable through the written text: its line is the last one
    // before $EndComp
    let t = format!("{}", c);
    let l: Vec<&str> = t.lines().collect();
    let rot = if l.len() >= 2 {
        l[l.len() - 2].split_whitespace().map(s).collect()
    } else {
        vec![]
    };
    obj(vec![
        ("k", s("comp")),
        ("name", s(c.name.clone())),
        ("ref", s(c.reference.clone())),
        ("u", s(c.u.clone())),
        ("x", n(c.x)),
        ("y", n(c.y)),
        ("ar", J::A(c.ar_path.iter().map(|x| s(x.clone())).collect())),
        ("fields", J::A(c.fields.iter().map(p_field).collect())),
        ("rot", J::A(rot)),
    ])
}

pub fn b_sheet(j: &J) -> Sheet {
    Sheet {
        x: j.gi("x"),
        y: j.gi("y"),
        dimx: j.gi("dimx"),
        dimy: j.gi("dimy"),
        unique: j.gs("unique"),
        name: j.gs("name"),
        name_size: j.gi("name_size"),
        filename: j.gs("filename"),
        filename_size: j.gi("filename_size"),
        labels: j
            .get("labels")
            .arr()
            .iter()
            .map(|l| SheetLabel {
                name: l.gs("name"),
                form: match l.get("form").str() {
                    "I" => LabelForm::Input,
                    "O" => LabelForm::Output,
                    "B" => LabelForm::BiDi,
                    "T" => LabelForm::TriState,
                    "U" => LabelForm::Unspecified,
                    x => driver_error(&format!("bad label form {}", x)),
                },
                side: match l.get("side").str() {
                    "L" => LabelSide::Left,
                    "R" => LabelSide::Right,
                    "T" => LabelSide::Top,
                    "B" => LabelSide::Bottom,
                    x => driver_error(&format!("bad label side {}", x)),
                },
                x: l.gi("x"),
                y: l.gi("y"),
                size: l.gi("size"),
            })
            .collect(),
    }
}

pub fn p_sheet(t: &Sheet) -> J {
    obj(vec![
        ("x", n(t.x)),
        ("y", n(t.y)),
        ("dimx", n(t.dimx)),
        ("dimy", n(t.dimy)),
        ("unique", s(t.unique.clone())),
        ("name", s(t.name.clone())),
        ("name_size", n(t.name_size)),
        ("filename", s(t.filename.clone())),
        ("filename_size", n(t.filename_size)),
        (
            "labels",
            J::A(t
                .labels
                .iter()
                .map(|l| {
                    obj(vec![
                        ("name", s(l.name.clone())),
                        (
                            "form",
                            s(match l.form {
                                LabelForm::Input => "I",
                                LabelForm::Output => "O",
                                LabelForm::BiDi => "B",
                                LabelForm::TriState => "T",
                                LabelForm::Unspecified => "U",
                            }),
                        ),
                        (
                            "side",
                            s(match l.side {
                                LabelSide::Left => "L",
                                LabelSide::Right => "R",
                                LabelSide::Top => "T",
                                LabelSide::Bottom => "B",
                            }),
                        ),
                        ("x", n(l.x)),
                        ("y", n(l.y)),
                        ("size", n(l.size)),
                    ])
                })
                .collect()),
        ),
    ])
}

fn b_elem(j: &J) -> Element {
    match j.get("k").str() {
        "comp" => Element::Component(b_comp(j)),
        "wire" => Element::Wire(Wire {
            type_: match j.get("t").str() {
                "Wire" => WireType::Wire,
                "Notes" => WireType::Notes,
                "Bus" => WireType::Bus,
                x => driver_error(&format!("bad wire {}", x)),
            },
            x1: j.gi("x1"),
            y1: j.gi("y1"),
            x2: j.gi("x2"),
            y2: j.gi("y2"),
        }),
        "conn" => Element::Connection(Connection {
            x: j.gi("x"),
            y: j.gi("y"),
        }),
        "noconn" => Element::NoConnect(NoConnect {
            x: j.gi("x"),
            y: j.gi("y"),
        }),
        "text" => Element::Text(Text {
            t: match j.get("t").str() {
                "Notes" => TextType::Note,
                "GLabel" => TextType::Global,
                "HLabel" => TextType::Hierarchical,
                "Label" => TextType::Label,
                x => driver_error(&format!("bad text {}", x)),
            },
            x: j.gi("x"),
            y: j.gi("y"),
            orientation: j.gi("o"),
            size: j.gi("size"),
            shape: first(j.get("shape")).map(|x| x.string()),
            italic: j.gb("italic"),
            thickness: j.gi("thickness"),
            text: j.gs("text"),
        }),
        "other" => Element::Other(j.gs("v")),
        x => driver_error(&format!("bad schematic element {}", x)),
    }
}

fn p_elem(e: &Element) -> J {
    match *e {
        Element::Component(ref c) => p_comp(c),
        Element::Wire(ref w) => obj(vec![
            ("k", s("wire")),
            (
                "t",
                s(match w.type_ {
                    WireType::Wire => "Wire",
                    WireType::Notes => "Notes",
                    WireType::Bus => "Bus",
                }),
            ),
            ("x1", n(w.x1)),
            ("y1", n(w.y1)),
            ("x2", n(w.x2)),
            ("y2", n(w.y2)),
        ]),
        Element::Connection(ref w) => obj(vec![("k", s("conn")), ("x", n(w.x)), ("y", n(w.y))]),
        Element::NoConnect(ref w) => obj(vec![("k", s("noconn")), ("x", n(w.x)), ("y", n(w.y))]),
        Element::Text(ref t) => obj(vec![
            ("k", s("text")),
            (
                "t",
                s(match t.t {
                    TextType::Note => "Notes",
                    TextType::Global => "GLabel",
                    TextType::Hierarchical => "HLabel",
                    TextType::Label => "Label",
                }),
            ),
            ("x", n(t.x)),
            ("y", n(t.y)),
            ("o", n(t.orientation)),
            ("size", n(t.size)),
            ("shape", opt(t.shape.clone().map(s))),
            ("italic", J::B(t.italic)),
            ("thickness", n(t.thickness)),
            ("text", s(t.text.clone())),
        ]),
        Element::Other(ref x) => obj(vec![("k", s("other")), ("v", s(x.clone()))]),
    }
}

const DESCR: [&str; 9] = [
    "size", "title", "date", "rev", "comp", "comment1", "comment2", "comment3", "comment4",
];

pub fn b_sch(j: &J) -> Schematic {
    let mut c = Schematic::default();
    c.libraries = j.get("libs").arr().iter().map(|x| x.string()).collect();
    c.eelayer = j.gs("eelayer");
    let d = j.get("descr");
    {
        let e = &mut c.description;
        let t: Vec<String> = DESCR.iter().map(|k| d.gs(k)).collect();
        e.size = t[0].clone();
        e.title = t[1].clone();
        e.date = t[2].clone();
        e.rev = t[3].clone();
        e.comp = t[4].clone();
        e.comment1 = t[5].clone();
        e.comment2 = t[6].clone();
        e.comment3 = t[7].clone();
        e.comment4 = t[8].clone();
        e.dimx = d.gi("dimx");
        e.dimy = d.gi("dimy");
        e.sheet = d.gi("sheet");
        e.sheet_count = d.gi("sheet_count");
    }
    c.elements = j.get("el").arr().iter().map(b_elem).collect();
    c.sheets = j.get("sheets").arr().iter().map(b_sheet).collect();
    c
}

pub fn p_sch(c: &Schematic) -> J {
    let e = &c.description;
    obj(vec![
        ("libs", J::A(c.libraries.iter().map(|x| s(x.clone())).collect())),
        ("eelayer", s(c.eelayer.clone())),
        (
            "descr",
            obj(vec![
                ("size", s(e.size.clone())),
                ("dimx", n(e.dimx)),
                ("dimy", n(e.dimy)),
                ("title", s(e.title.clone())),
                ("date", s(e.date.clone())),
                ("rev", s(e.rev.clone())),
                ("comp", s(e.comp.clone())),
                ("comment1", s(e.comment1.clone())),
                ("comment2", s(e.comment2.clone())),
                ("comment3", s(e.comment3.clone())),
                ("comment4", s(e.comment4.clone())),
                ("sheet", n(e.sheet)),
                ("sheet_count", n(e.sheet_count)),
            ]),
        ),
        ("el", J::A(c.elements.iter().map(p_elem).collect())),
        ("sheets", J::A(c.sheets.iter().map(p_sheet).collect())),
    ])
}

// ---- symbol libraries ---------------------------------------------------------------------------

fn b_symfield(j: &J) -> sl::Field {
    let mut c = sl::Field::default();
    c.i = j.gi("i");
    c.value = j.gs("value");
    c.x = float(j.get("x"));
    c.y = float(j.get("y"));
    c.dimension = j.gi("dim");
    c.orientation = b_orient(j.get("o"));
    c.visible = j.gb("visible");
    c.hjustify = b_just(j.get("h"));
    c.vjustify = b_just(j.get("v"));
    c.italic = j.gb("italic");
    c.bold = j.gb("bold");
    c.name = j.gs("name");
    c
}

fn p_symfield(c: &sl::Field) -> J {
    obj(vec![
        ("i", n(c.i)),
        ("value", s(c.value.clone())),
        ("x", f(c.x)),
        ("y", f(c.y)),
        ("dim", n(c.dimension)),
        ("o", p_orient(&c.orientation)),
        ("visible", J::B(c.visible)),
        ("h", p_just(&c.hjustify)),
        ("v", p_just(&c.vjustify)),
        ("italic", J::B(c.italic)),
        ("bold", J::B(c.bold)),
        ("name", s(c.name.clone())),
    ])
}

fn b_draw(j: &J) -> sl::Draw {
    match j.get("k").str() {
        "pin" => {
            let mut p = sl::Pin::default();
            p.name = j.gs("name");
            p.number = j.gs("number");
            p.x = j.gi("x");
            p.y = j.gi("y");
            p.len = j.gi("len");
            p.orientation = match j.get("o").str() {
                "U" => sl::PinOrientation::Up,
                "D" => sl::PinOrientation::Down,
                "L" => sl::PinOrientation::Left,
                "R" => sl::PinOrientation::Right,
                x => driver_error(&format!("bad pin orientation {}", x)),
            };
            p.num_size = j.gi("num_size");
            p.name_size = j.gi("name_size");
            p.unit = j.gi("unit");
            p.convert = j.gi("convert");
            p.pin_type = match j.get("t").str() {
                "I" => sl::PinType::Input,
                "O" => sl::PinType::Output,
                "B" => sl::PinType::Bidi,
                "T" => sl::PinType::Tristate,
                "P" => sl::PinType::Passive,
                "U" => sl::PinType::Unspecified,
                "W" => sl::PinType::PowerInput,
                "w" => sl::PinType::PowerOutput,
                "C" => sl::PinType::OpenCollector,
                "E" => sl::PinType::OpenEmitter,
                "N" => sl::PinType::NotConnected,
                x => driver_error(&format!("bad pin type {}", x)),
            };
            p.pin_visible = j.gb("visible");
            p.pin_shape = match j.get("shape").str() {
                "" => sl::PinShape::Line,
                "I" => sl::PinShape::Inverted,
                "C" => sl::PinShape::Clock,
                "CI" => sl::PinShape::InvertedClock,
                "L" => sl::PinShape::InputLow,
                "CL" => sl::PinShape::ClockLow,
                "V" => sl::PinShape::OutputLow,
                "F" => sl::PinShape::FallingEdgeClock,
                "X" => sl::PinShape::NonLogic,
                x => driver_error(&format!("bad pin shape {}", x)),
            };
            sl::Draw::Pin(p)
        }
        "rect" => sl::Draw::Rectangle(sl::Rectangle {
            x1: j.gi("x1"),
            y1: j.gi("y1"),
            x2: j.gi("x2"),
            y2: j.gi("y2"),
            unit: j.gi("unit"),
            convert: j.gi("convert"),
            thickness: j.gi("thickness"),
            fill: match j.get("fill").str() {
                "F" => sl::Fill::FilledForeground,
                "f" => sl::Fill::FilledBackground,
                "N" => sl::Fill::Transparent,
                x => driver_error(&format!("bad fill {}", x)),
            },
        }),
        "other" => sl::Draw::Other(j.gs("v")),
        x => driver_error(&format!("bad draw {}", x)),
    }
}

pub fn p_pin(p: &sl::Pin) -> J {
    obj(vec![
        ("k", s("pin")),
        ("name", s(p.name.clone())),
        ("number", s(p.number.clone())),
        ("x", n(p.x)),
        ("y", n(p.y)),
        ("len", n(p.len)),
        (
            "o",
            s(match p.orientation {
                sl::PinOrientation::Up => "U",
                sl::PinOrientation::Down => "D",
                sl::PinOrientation::Left => "L",
                sl::PinOrientation::Right => "R",
            }),
        ),
        ("num_size", n(p.num_size)),
        ("name_size", n(p.name_size)),
        ("unit", n(p.unit)),
        ("convert", n(p.convert)),
        (
            "t",
            s(match p.pin_type {
                sl::PinType::Input => "I",
                sl::PinType::Output => "O",
                sl::PinType::Bidi => "B",
                sl::PinType::Tristate => "T",
                sl::PinType::Passive => "P",
                sl::PinType::Unspecified => "U",
                sl::PinType::PowerInput => "W",
                sl::PinType::PowerOutput => "w",
                sl::PinType::OpenCollector => "C",
                sl::PinType::OpenEmitter => "E",
                sl::PinType::NotConnected => "N",
            }),
        ),
        ("visible", J::B(p.pin_visible)),
        (
            "shape",
            s(match p.pin_shape {
                sl::PinShape::Line => "",
                sl::PinShape::Inverted => "I",
                sl::PinShape::Clock => "C",
                sl::PinShape::InvertedClock => "CI",
                sl::PinShape::InputLow => "L",
                sl::PinShape::ClockLow => "CL",
                sl::PinShape::OutputLow => "V",
                sl::PinShape::FallingEdgeClock => "F",
                sl::PinShape::NonLogic => "X",
            }),
        ),
    ])
}

fn p_draw(d: &sl::Draw) -> J {
    match *d {
        sl::Draw::Pin(ref p) => p_pin(p),
        sl::Draw::Rectangle(ref r) => obj(vec![
            ("k", s("rect")),
            ("x1", n(r.x1)),
            ("y1", n(r.y1)),
            ("x2", n(r.x2)),
            ("y2", n(r.y2)),
            ("unit", n(r.unit)),
            ("convert", n(r.convert)),
            ("thickness", n(r.thickness)),
            (
                "fill",
                s(match r.fill {
                    sl::Fill::FilledForeground => "F",
                    sl::Fill::FilledBackground => "f",
                    sl::Fill::Transparent => "N",
                }),
            ),
        ]),
        sl::Draw::Other(ref x) => obj(vec![("k", s("other")), ("v", s(x.clone()))]),
    }
}

pub fn b_sym(j: &J) -> sl::Symbol {
    let mut c = sl::Symbol::new(j.gs("name"), j.gs("ref"));
    c.text_offset = float(j.get("off"));
    c.draw_pinnumber = j.gb("pinnum");
    c.draw_pinname = j.gb("pinname");
    c.unit_count = j.gi("units");
    c.unit_locked = j.gb("locked");
    c.is_power = j.gb("power");
    c.fields = j.get("fields").arr().iter().map(b_symfield).collect();
    c.aliases = j.get("aliases").arr().iter().map(|x| x.string()).collect();
    c.draw = j.get("draw").arr().iter().map(b_draw).collect();
    c
}

pub fn p_sym(c: &sl::Symbol) -> J {
    obj(vec![
        ("name", s(c.name.clone())),
        ("ref", s(c.reference.clone())),
        ("off", f(c.text_offset)),
        ("pinnum", J::B(c.draw_pinnumber)),
        ("pinname", J::B(c.draw_pinname)),
        ("units", n(c.unit_count)),
        ("locked", J::B(c.unit_locked)),
        ("power", J::B(c.is_power)),
        ("fields", J::A(c.fields.iter().map(p_symfield).collect())),
        ("aliases", J::A(c.aliases.iter().map(|x| s(x.clone())).collect())),
        ("draw", J::A(c.draw.iter().map(p_draw).collect())),
    ])
}

pub fn b_lib(j: &J) -> sl::SymbolLib {
    let mut l = sl::SymbolLib::default();
    l.symbols = j.arr().iter().map(b_sym).collect();
    l
}

pub fn p_lib(l: &sl::SymbolLib) -> J {
    J::A(l.symbols.iter().map(p_sym).collect())
}

pub fn b_finding(j: &J) -> CheckFixData {
    if let Some(v) = j.maybe("more") {
        return CheckFixData::More(v.arr().iter().map(b_finding).collect());
    }
    let rule: Vec<i64> = j.get("rule").str().split('.').map(|x| x.parse().unwrap_or_else(|_| driver_error("bad rule"))).collect();
    if j.gb("info") {
        CheckFixData::info(rule[0], rule[1], j.gs("item"), j.gs("msg"))
    } else {
        CheckFixData::new(rule[0], rule[1], j.gs("item"), j.gs("msg"))
    }
}

/// findings as a nested list: an item is a record, a group is a list
pub fn p_finding(d: &CheckFixData) -> J {
    match *d {
        CheckFixData::Item(ref i) => obj(vec![
            ("rule", s(format!("{}.{}", i.section, i.rule))),
            ("item", s(i.item.clone())),
            ("msg", s(i.message.clone())),
            ("info", J::B(i.info)),
        ]),
        CheckFixData::More(ref v) => obj(vec![("more", J::A(v.iter().map(p_finding).collect()))]),
    }
}
