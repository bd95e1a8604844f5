//! Boards and footprint library tables: abstract document <-> library objects.

use crate::fp::*;
use crate::json::{driver_error, obj, opt, s, J};
use kicad_parse_gen::fp_lib_table::{FpLibTable, Lib};
use kicad_parse_gen::layout::*;
use kicad_parse_gen::{footprint, Sexp};

pub fn b_sexp(j: &J) -> Sexp {
    if let Some(a) = j.maybe("a") {
        Sexp::String(a.string())
    } else {
        Sexp::List(j.get("l").arr().iter().map(b_sexp).collect())
    }
}

pub fn p_sexp(x: &Sexp) -> J {
    match *x {
        Sexp::String(ref t) => obj(vec![("a", s(t.clone()))]),
        Sexp::List(ref v) => obj(vec![("l", J::A(v.iter().map(p_sexp).collect()))]),
        Sexp::Empty => obj(vec![("e", J::B(true))]),
    }
}

fn ostr(j: &J) -> Option<String> {
    first(j).map(|x| x.string())
}

fn pstr(x: &Option<String>) -> J {
    opt(x.clone().map(s))
}

fn b_setup_elem(j: &J) -> SetupElement {
    SetupElement {
        name: j.gs("name"),
        value1: j.gs("v1"),
        value2: ostr(j.get("v2")),
    }
}

pub fn p_setup_elem(x: &SetupElement) -> J {
    obj(vec![("name", s(x.name.clone())), ("v1", s(x.value1.clone())), ("v2", pstr(&x.value2))])
}

fn b_grtext(j: &J) -> GrText {
    GrText {
        value: j.gs("value"),
        at: b_at(j.get("at")),
        layer: b_layer(j.get("layer")),
        effects: b_effects(j.get("effects")),
        tstamp: ostr(j.get("tstamp")),
    }
}

fn p_grtext(t: &GrText, m: Mode) -> J {
    obj(vec![
        ("k", s("gr_text")),
        ("value", s(t.value.clone())),
        ("at", p_at(&t.at, m)),
        ("layer", p_layer(&t.layer)),
        ("effects", p_effects(&t.effects, m)),
        ("tstamp", pstr(&t.tstamp)),
    ])
}

pub fn b_netclass(j: &J) -> NetClass {
    NetClass {
        name: j.gs("name"),
        desc: j.gs("desc"),
        clearance: float(j.get("clearance")),
        trace_width: float(j.get("trace_width")),
        via_dia: float(j.get("via_dia")),
        via_drill: float(j.get("via_drill")),
        uvia_dia: float(j.get("uvia_dia")),
        uvia_drill: float(j.get("uvia_drill")),
        diff_pair_gap: first(j.get("diff_pair_gap")).map(float),
        diff_pair_width: first(j.get("diff_pair_width")).map(float),
        nets: j.get("nets").arr().iter().map(|x| NetName(x.string())).collect(),
    }
}

pub fn p_netclass(n: &NetClass, m: Mode) -> J {
    obj(vec![
        ("k", s("net_class")),
        ("name", s(n.name.clone())),
        ("desc", s(n.desc.clone())),
        ("clearance", num(n.clearance, m)),
        ("trace_width", num(n.trace_width, m)),
        ("via_dia", num(n.via_dia, m)),
        ("via_drill", num(n.via_drill, m)),
        ("uvia_dia", num(n.uvia_dia, m)),
        ("uvia_drill", num(n.uvia_drill, m)),
        ("diff_pair_gap", opt(n.diff_pair_gap.map(|x| num(x, m)))),
        ("diff_pair_width", opt(n.diff_pair_width.map(|x| num(x, m)))),
        ("nets", J::A(n.nets.iter().map(|x| s(x.0.clone())).collect())),
    ])
}

fn b_polys(j: &J) -> Vec<footprint::Pts> {
    j.arr().iter().map(b_pts).collect()
}

fn p_polys(v: &[footprint::Pts], m: Mode) -> J {
    J::A(v.iter().map(|x| p_pts(x, m)).collect())
}

fn b_zone(j: &J) -> Zone {
    let f = j.get("fill");
    let cp = j.get("connect_pads");
    let h = j.get("hatch");
    Zone {
        net: j.gi("net"),
        net_name: NetName(j.gs("net_name")),
        layer: b_layer(j.get("layer")),
        tstamp: j.gs("tstamp"),
        hatch: Hatch {
            style: h.gs("style"),
            pitch: float(h.get("pitch")),
        },
        priority: j.gi("priority") as u64,
        connect_pads: ConnectPads {
            connection: ostr(cp.get("connection")),
            clearance: float(cp.get("clearance")),
        },
        min_thickness: float(j.get("min_thickness")),
        keepout: first(j.get("keepout")).map(|k| Keepout {
            tracks: k.gb("tracks"),
            vias: k.gb("vias"),
            copperpour: k.gb("copperpour"),
        }),
        fill: Fill {
            filled: f.gb("filled"),
            segment: f.gb("segment"),
            arc_segments: f.gi("arc_segments"),
            thermal_gap: float(f.get("thermal_gap")),
            thermal_bridge_width: float(f.get("thermal_bridge_width")),
            smoothing: ostr(f.get("smoothing")),
            corner_radius: float(f.get("corner_radius")),
        },
        polygons: b_polys(j.get("polygons")),
        filled_polygons: b_polys(j.get("filled_polygons")),
        fill_segments: first(j.get("fill_segments")).map(b_pts),
        other: j.get("other").arr().iter().map(b_sexp).collect(),
    }
}

fn p_zone(z: &Zone, m: Mode) -> J {
    obj(vec![
        ("k", s("zone")),
        ("net", s(z.net.to_string())),
        ("net_name", s(z.net_name.0.clone())),
        ("layer", p_layer(&z.layer)),
        ("tstamp", s(z.tstamp.clone())),
        ("hatch", obj(vec![("style", s(z.hatch.style.clone())), ("pitch", num(z.hatch.pitch, m))])),
        ("priority", s(z.priority.to_string())),
        (
            "connect_pads",
            obj(vec![
                ("connection", pstr(&z.connect_pads.connection)),
                ("clearance", num(z.connect_pads.clearance, m)),
            ]),
        ),
        ("min_thickness", num(z.min_thickness, m)),
        (
            "keepout",
            opt(z.keepout.as_ref().map(|k| {
                obj(vec![
                    ("tracks", J::B(k.tracks)),
                    ("vias", J::B(k.vias)),
                    ("copperpour", J::B(k.copperpour)),
                ])
            })),
        ),
        (
            "fill",
            obj(vec![
                ("filled", J::B(z.fill.filled)),
                ("segment", J::B(z.fill.segment)),
                ("arc_segments", s(z.fill.arc_segments.to_string())),
                ("thermal_gap", num(z.fill.thermal_gap, m)),
                ("thermal_bridge_width", num(z.fill.thermal_bridge_width, m)),
                ("smoothing", pstr(&z.fill.smoothing)),
                ("corner_radius", num(z.fill.corner_radius, m)),
            ]),
        ),
        ("polygons", p_polys(&z.polygons, m)),
        ("filled_polygons", p_polys(&z.filled_polygons, m)),
        ("fill_segments", opt(z.fill_segments.as_ref().map(|x| p_pts(x, m)))),
        ("other", J::A(z.other.iter().map(p_sexp).collect())),
    ])
}

pub fn b_elem(j: &J) -> Element {
    match j.get("k").str() {
        "module" => Element::Module(b_module(j.get("v"))),
        "net" => Element::Net(Net {
            num: j.gi("num"),
            name: NetName(j.gs("name")),
        }),
        "net_class" => Element::NetClass(b_netclass(j)),
        "gr_text" => Element::GrText(b_grtext(j)),
        "gr_line" => Element::GrLine(GrLine {
            start: b_xy(j.get("start")),
            end: b_xy(j.get("end")),
            angle: float(j.get("angle")),
            layer: b_layer(j.get("layer")),
            width: float(j.get("width")),
            tstamp: ostr(j.get("tstamp")),
        }),
        "gr_arc" => Element::GrArc(GrArc {
            start: b_xy(j.get("start")),
            end: b_xy(j.get("end")),
            angle: float(j.get("angle")),
            layer: b_layer(j.get("layer")),
            width: float(j.get("width")),
            tstamp: ostr(j.get("tstamp")),
        }),
        "gr_circle" => Element::GrCircle(GrCircle {
            center: b_xy(j.get("center")),
            end: b_xy(j.get("end")),
            layer: b_layer(j.get("layer")),
            width: float(j.get("width")),
            tstamp: ostr(j.get("tstamp")),
        }),
        "dimension" => Element::Dimension(Dimension {
            name: j.gs("name"),
            width: float(j.get("width")),
            layer: b_layer(j.get("layer")),
            tstamp: ostr(j.get("tstamp")),
            text: b_grtext(j.get("text")),
            feature1: b_pts(j.get("feature1")),
            feature2: b_pts(j.get("feature2")),
            crossbar: b_pts(j.get("crossbar")),
            arrow1a: b_pts(j.get("arrow1a")),
            arrow1b: b_pts(j.get("arrow1b")),
            arrow2a: b_pts(j.get("arrow2a")),
            arrow2b: b_pts(j.get("arrow2b")),
        }),
        "segment" => Element::Segment(Segment {
            start: b_xy(j.get("start")),
            end: b_xy(j.get("end")),
            width: float(j.get("width")),
            layer: b_layer(j.get("layer")),
            net: j.gi("net"),
            tstamp: ostr(j.get("tstamp")),
            status: ostr(j.get("status")),
        }),
        "via" => Element::Via(Via {
            blind: j.gb("blind"),
            micro: j.gb("micro"),
            at: b_at(j.get("at")),
            size: float(j.get("size")),
            drill: float(j.get("drill")),
            layers: b_layers(j.get("layers")),
            net: j.gi("net"),
        }),
        "zone" => Element::Zone(b_zone(j)),
        "other" => Element::Other(b_sexp(j.get("v"))),
        x => driver_error(&format!("bad board element {}", x)),
    }
}

pub fn p_elem(e: &Element, m: Mode) -> J {
    match *e {
        Element::Module(ref x) => obj(vec![("k", s("module")), ("v", p_module(x, m))]),
        Element::Net(ref x) => obj(vec![("k", s("net")), ("num", s(x.num.to_string())), ("name", s(x.name.0.clone()))]),
        Element::NetClass(ref x) => p_netclass(x, m),
        Element::GrText(ref x) => p_grtext(x, m),
        Element::GrLine(ref x) => obj(vec![
            ("k", s("gr_line")),
            ("start", p_xy(&x.start, m)),
            ("end", p_xy(&x.end, m)),
            ("angle", num(x.angle, m)),
            ("layer", p_layer(&x.layer)),
            ("width", num(x.width, m)),
            ("tstamp", pstr(&x.tstamp)),
        ]),
        Element::GrArc(ref x) => obj(vec![
            ("k", s("gr_arc")),
            ("start", p_xy(&x.start, m)),
            ("end", p_xy(&x.end, m)),
            ("angle", num(x.angle, m)),
            ("layer", p_layer(&x.layer)),
            ("width", num(x.width, m)),
            ("tstamp", pstr(&x.tstamp)),
        ]),
        Element::GrCircle(ref x) => obj(vec![
            ("k", s("gr_circle")),
            ("center", p_xy(&x.center, m)),
            ("end", p_xy(&x.end, m)),
            ("layer", p_layer(&x.layer)),
            ("width", num(x.width, m)),
            ("tstamp", pstr(&x.tstamp)),
        ]),
        Element::Dimension(ref x) => obj(vec![
            ("k", s("dimension")),
            ("name", s(x.name.clone())),
            ("width", num(x.width, m)),
            ("layer", p_layer(&x.layer)),
            ("tstamp", pstr(&x.tstamp)),
            ("text", p_grtext(&x.text, m)),
            ("feature1", p_pts(&x.feature1, m)),
            ("feature2", p_pts(&x.feature2, m)),
            ("crossbar", p_pts(&x.crossbar, m)),
            ("arrow1a", p_pts(&x.arrow1a, m)),
            ("arrow1b", p_pts(&x.arrow1b, m)),
            ("arrow2a", p_pts(&x.arrow2a, m)),
            ("arrow2b", p_pts(&x.arrow2b, m)),
        ]),
        Element::Segment(ref x) => obj(vec![
            ("k", s("segment")),
            ("start", p_xy(&x.start, m)),
            ("end", p_xy(&x.end, m)),
            ("width", num(x.width, m)),
            ("layer", p_layer(&x.layer)),
            ("net", s(x.net.to_string())),
            ("tstamp", pstr(&x.tstamp)),
            ("status", pstr(&x.status)),
        ]),
        Element::Via(ref x) => obj(vec![
            ("k", s("via")),
            ("blind", J::B(x.blind)),
            ("micro", J::B(x.micro)),
            ("at", p_at(&x.at, m)),
            ("size", num(x.size, m)),
            ("drill", num(x.drill, m)),
            ("layers", p_layers(&x.layers)),
            ("net", s(x.net.to_string())),
        ]),
        Element::Zone(ref x) => p_zone(x, m),
        Element::Other(ref x) => obj(vec![("k", s("other")), ("v", p_sexp(x))]),
    }
}

pub fn b_layout(j: &J) -> Layout {
    let g = j.get("general");
    let a = g.get("area");
    let mut l = Layout::default();
    l.version = j.gi("version");
    l.host = Host {
        tool: j.get("host").gs("tool"),
        build: j.get("host").gs("build"),
    };
    l.general = General {
        links: g.gi("links"),
        no_connects: g.gi("no_connects"),
        area: Area {
            x1: float(a.get("x1")),
            y1: float(a.get("y1")),
            x2: float(a.get("x2")),
            y2: float(a.get("y2")),
        },
        thickness: float(g.get("thickness")),
        drawings: g.gi("drawings"),
        tracks: g.gi("tracks"),
        zones: g.gi("zones"),
        modules: g.gi("modules"),
        nets: g.gi("nets"),
    };
    l.page = j.gs("page");
    l.setup.elements = j.get("setup").arr().iter().map(b_setup_elem).collect();
    l.setup.pcbplotparams = j.get("plot").arr().iter().map(b_setup_elem).collect();
    l.layers = j
        .get("layers")
        .arr()
        .iter()
        .map(|x| Layer {
            num: x.gi("num"),
            layer: b_layer(x.get("layer")),
            layer_type: match x.get("type").str() {
                "signal" => LayerType::Signal,
                "power" => LayerType::Power,
                "mixed" => LayerType::Mixed,
                "jumper" => LayerType::Jumper,
                "user" => LayerType::User,
                x => driver_error(&format!("bad layer kind {}", x)),
            },
            hide: x.gb("hide"),
        })
        .collect();
    l.elements = j.get("el").arr().iter().map(b_elem).collect();
    l
}

pub fn p_layout(l: &Layout, m: Mode) -> J {
    let g = &l.general;
    obj(vec![
        ("version", s(l.version.to_string())),
        (
            "host",
            obj(vec![("tool", s(l.host.tool.clone())), ("build", s(l.host.build.clone()))]),
        ),
        (
            "general",
            obj(vec![
                ("links", s(g.links.to_string())),
                ("no_connects", s(g.no_connects.to_string())),
                (
                    "area",
                    obj(vec![
                        ("x1", num(g.area.x1, m)),
                        ("y1", num(g.area.y1, m)),
                        ("x2", num(g.area.x2, m)),
                        ("y2", num(g.area.y2, m)),
                    ]),
                ),
                ("thickness", num(g.thickness, m)),
                ("drawings", s(g.drawings.to_string())),
                ("tracks", s(g.tracks.to_string())),
                ("zones", s(g.zones.to_string())),
                ("modules", s(g.modules.to_string())),
                ("nets", s(g.nets.to_string())),
            ]),
        ),
        ("page", s(l.page.clone())),
        ("setup", J::A(l.setup.elements.iter().map(p_setup_elem).collect())),
        ("plot", J::A(l.setup.pcbplotparams.iter().map(p_setup_elem).collect())),
        (
            "layers",
            J::A(l
                .layers
                .iter()
                .map(|x| {
                    let t = match x.layer_type {
                        LayerType::Signal => "signal",
                        LayerType::Power => "power",
                        LayerType::Mixed => "mixed",
                        LayerType::Jumper => "jumper",
                        LayerType::User => "user",
                    };
                    obj(vec![
                        ("num", s(x.num.to_string())),
                        ("layer", p_layer(&x.layer)),
                        ("type", s(t)),
                        ("hide", J::B(x.hide)),
                    ])
                })
                .collect()),
        ),
        ("el", J::A(l.elements.iter().map(|e| p_elem(e, m)).collect())),
    ])
}

pub fn b_fplib(j: &J) -> FpLibTable {
    FpLibTable {
        libs: j
            .arr()
            .iter()
            .map(|x| Lib {
                name: x.gs("name"),
                type_: x.gs("type"),
                uri: x.gs("uri"),
                options: x.gs("options"),
                descr: x.gs("descr"),
            })
            .collect(),
    }
}

pub fn p_fplib(t: &FpLibTable) -> J {
    J::A(t
        .libs
        .iter()
        .map(|l| {
            obj(vec![
                ("name", s(l.name.clone())),
                ("type", s(l.type_.clone())),
                ("uri", s(l.uri.clone())),
                ("options", s(l.options.clone())),
                ("descr", s(l.descr.clone())),
            ])
        })
        .collect())
}
