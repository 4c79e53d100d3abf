//! C29: loading Gmsh files.
use fenris::connectivity::*;
use fenris::io::msh::*;
use fenris::nalgebra::{U2, U3};
use pbt::elems::Kind;
use pbt::*;

const KINDS: [Kind; 9] = [Kind::Tri3, Kind::Tri3d3, Kind::Tri6, Kind::Quad4, Kind::Quad9, Kind::Tet4, Kind::Tet10, Kind::Hex8, Kind::Hex27];

/// Gmsh type, entity dimension, nodes
fn gmsh(kind: Kind) -> (i32, i32, usize) {
    match kind {
        Kind::Tri3 | Kind::Tri3d3 => (2, 2, 3),
        Kind::Tri6 => (9, 2, 6),
        Kind::Quad4 => (3, 2, 4),
        Kind::Quad9 => (10, 2, 9),
        Kind::Tet4 => (4, 3, 4),
        Kind::Tet10 => (11, 3, 10),
        Kind::Hex8 => (5, 3, 8),
        _ => (12, 3, 27),
    }
}

/// Every type of element that is written: type, dimension, nodes
const TYPES: [(i32, i32, usize); 20] = [
    (15, 0, 1),
    (1, 1, 2),
    (8, 1, 3),
    (26, 1, 4),
    (2, 2, 3),
    (9, 2, 6),
    (21, 2, 10),
    (3, 2, 4),
    (10, 2, 9),
    (16, 2, 8),
    (4, 3, 4),
    (11, 3, 10),
    (29, 3, 20),
    (5, 3, 8),
    (12, 3, 27),
    (17, 3, 20),
    (6, 3, 6),
    (18, 3, 15),
    (7, 3, 5),
    (19, 3, 13),
];

#[derive(Debug, Clone, Copy, PartialEq)]
enum Format {
    Text,
    Little,
    Big,
}

#[derive(Debug, Clone)]
struct File {
    format: Format,
    size: usize,
    crlf: bool,
    version: &'static str,
    /// Number of nodes and tags in the header, if not those of the blocks
    num_nodes: Option<u64>,
    node_tags: Option<(u64, u64)>,
    element_tags: Option<(u64, u64)>,
    /// Tags of the nodes in the order of the file
    tags: Vec<u64>,
    node_blocks: Vec<(i32, i32, Vec<[f64; 3]>)>,
    first_element: u64,
    /// Dimension, entity, type, tags of the nodes of each element
    element_blocks: Vec<(i32, i32, i32, Vec<Vec<u64>>)>,
    extra: Vec<u8>,
    skip: Option<&'static str>,
    style: u8,
    elements_first: bool,
}

struct Out<'a> {
    f: &'a File,
    b: Vec<u8>,
}

impl<'a> Out<'a> {
    fn nl(&mut self) {
        self.b.extend_from_slice(if self.f.crlf { b"\r\n" } else { b"\n" });
    }
    fn line(&mut self, s: &str) {
        self.b.extend_from_slice(s.as_bytes());
        self.nl();
    }
    /// Ends a line of a text
    fn eol(&mut self) {
        if self.f.format == Format::Text {
            self.nl();
        }
    }
    fn put(&mut self, text: String, le: &[u8]) {
        match self.f.format {
            Format::Text => {
                self.b.extend_from_slice(text.as_bytes());
                self.b.push(b' ');
            }
            Format::Little => self.b.extend_from_slice(le),
            Format::Big => self.b.extend(le.iter().rev()),
        }
    }
    fn int(&mut self, v: i32) {
        self.put(v.to_string(), &v.to_le_bytes());
    }
    fn size(&mut self, v: u64) {
        let bytes = v.to_le_bytes();
        let n = self.f.size;
        self.put(v.to_string(), &bytes[..n]);
    }
    fn real(&mut self, v: f64) {
        let text = match self.f.style {
            0 => format!("{}", v),
            1 => format!("{:e}", v),
            2 => format!("{:.17e}", v),
            _ => format!("{:?}", v),
        };
        self.put(text, &v.to_le_bytes());
    }
}

impl File {
    fn nodes(&self) -> Vec<[f64; 3]> {
        self.node_blocks.iter().flat_map(|b| b.2.iter().copied()).collect()
    }

    /// The bytes, and the length of the part that is needed
    fn write(&self) -> (Vec<u8>, usize) {
        let mut o = Out { f: self, b: vec![] };
        o.line("$MeshFormat");
        o.line(&format!("{} {} {}", self.version, (self.format != Format::Text) as u8, self.size));
        if self.format != Format::Text {
            o.int(1);
            o.nl();
        }
        o.line("$EndMeshFormat");
        if self.extra.first() == Some(&1) {
            o.line("$PhysicalNames");
            o.line("1");
            o.line("2 1 \"a $thing\"");
            o.line("$EndPhysicalNames");
        }
        if self.extra.contains(&2) {
            o.line("$Entities");
            for n in [1u64, 0, 0, 0] {
                o.size(n);
            }
            o.eol();
            o.int(1);
            for x in [0.0, 0.5, 1.0] {
                o.real(x);
            }
            o.size(0);
            o.eol();
            if self.format != Format::Text {
                o.nl();
            }
            o.line("$EndEntities");
        }
        for part in if self.elements_first { [1, 0] } else { [0, 1] } {
            if part == 0 && self.skip != Some("nodes") {
                o.line("$Nodes");
                let n = self.tags.len() as u64;
                let (lo, hi) = self.node_tags.unwrap_or((self.tags.iter().copied().min().unwrap_or(1), self.tags.iter().copied().max().unwrap_or(1)));
                o.size(self.node_blocks.len() as u64);
                o.size(self.num_nodes.unwrap_or(n));
                o.size(lo);
                o.size(hi);
                o.eol();
                let mut next = 0;
                for (dim, entity, nodes) in &self.node_blocks {
                    o.int(*dim);
                    o.int(*entity);
                    o.int(0);
                    o.size(nodes.len() as u64);
                    o.eol();
                    for i in 0..nodes.len() {
                        o.size(self.tags[next + i]);
                        o.eol();
                    }
                    next += nodes.len();
                    for x in nodes {
                        for v in x {
                            o.real(*v);
                        }
                        o.eol();
                    }
                }
                if self.format != Format::Text {
                    o.nl();
                }
                o.line("$EndNodes");
            }
            if part == 1 && self.skip != Some("elements") {
                o.line("$Elements");
                let n: u64 = self.element_blocks.iter().map(|b| b.3.len() as u64).sum();
                let (lo, hi) = self.element_tags.unwrap_or((self.first_element, self.first_element + n.max(1) - 1));
                o.size(self.element_blocks.len() as u64);
                o.size(n);
                o.size(lo);
                o.size(hi);
                o.eol();
                let mut tag = self.first_element;
                for (dim, entity, kind, elements) in &self.element_blocks {
                    o.int(*dim);
                    o.int(*entity);
                    o.int(*kind);
                    o.size(elements.len() as u64);
                    o.eol();
                    for e in elements {
                        o.size(tag);
                        tag += 1;
                        for v in e {
                            o.size(*v);
                        }
                        o.eol();
                    }
                }
                if self.format != Format::Text {
                    o.nl();
                }
                o.line("$EndElements");
            }
        }
        let needed = o.b.len();
        if self.extra.contains(&3) {
            o.line("$NodeData");
            o.line("1\n\"x\"\n1\n0.0\n3\n0\n1\n0");
            o.line("$EndNodeData");
        }
        (o.b, needed)
    }
}

type Loaded = (Vec<Vec<f64>>, Vec<Vec<usize>>);

/// None: an error. Panics of the parser library are errors, too, but not those of this library.
fn load(kind: Kind, bytes: &[u8], way: u8) -> Result<Result<Loaded, String>, Stop> {
    macro_rules! go {
        ($c:ty, $d:ty) => {{
            let mesh = match way {
                0 => load_msh_from_bytes::<f64, $d, $c>(bytes),
                _ => {
                    let path = scratch_file();
                    std::fs::write(&path, bytes).expect("cannot write");
                    let r = load_msh_from_file::<f64, $d, $c, _>(&path);
                    let _ = std::fs::remove_file(&path);
                    r
                }
            };
            mesh.map(|m| {
                let v = m.vertices().iter().map(|p| p.iter().copied().collect()).collect();
                (v, m.connectivity().iter().map(|c| c.vertex_indices().to_vec()).collect())
            })
        }};
    }
    let r = catch(|| match kind {
        Kind::Tri3 => go!(Tri3d2Connectivity, U2),
        Kind::Tri3d3 => go!(Tri3d3Connectivity, U3),
        Kind::Tri6 => go!(Tri6d2Connectivity, U2),
        Kind::Quad4 => go!(Quad4d2Connectivity, U2),
        Kind::Quad9 => go!(Quad9d2Connectivity, U2),
        Kind::Tet4 => go!(Tet4Connectivity, U3),
        Kind::Tet10 => go!(Tet10Connectivity, U3),
        Kind::Hex8 => go!(Hex8Connectivity, U3),
        _ => go!(Hex27Connectivity, U3),
    });
    match r {
        Ok(Ok(m)) => Ok(Ok(m)),
        Ok(Err(e)) => Ok(Err(e.to_string())),
        Err(p) if p.location.contains("/mshio-") || p.location.contains("/nom-") => Ok(Err(format!("panic of the parser library: {}", p.message))),
        Err(p) => Err(Stop::Fail(format!("panic at {}: {}", p.location, p.message))),
    }
}

fn scratch_file() -> std::path::PathBuf {
    use std::sync::atomic::*;
    static N: AtomicUsize = AtomicUsize::new(0);
    std::env::temp_dir().join(format!("fenris-pbt-{}-{}.msh", std::process::id(), N.fetch_add(1, Ordering::SeqCst)))
}

fn gen_file(c: &mut Case, kind: Kind) -> File {
    let (ty, tdim, nodes) = gmsh(kind);
    let format = *c.pick(&[Format::Text, Format::Text, Format::Little, Format::Big]);
    let size = if format == Format::Text { 8 } else { *c.pick(&[8, 8, 4]) };
    let blocks = c.int(1, 4);
    let ugly = c.bool();
    let mut node_blocks = c.vec(blocks, |c| {
        let n = if c.chance(1, 5) { 0 } else { c.int(0, 8) };
        let dim = c.int(0, 3) as i32;
        let entity = c.int(1, 9) as i32;
        let v = c.vec(n, |c| {
            let mut x = [0.0; 3];
            for v in &mut x {
                *v = if ugly {
                    let m = c.magnitude(-20.0, 20.0);
                    let s = c.f64(-1.0, 1.0);
                    m * s
                } else {
                    c.grid(40, 8)
                };
            }
            x
        });
        (dim, entity, v)
    });
    let mut n: usize = node_blocks.iter().map(|b| b.2.len()).sum();
    if n == 0 {
        node_blocks[0].2.push([1.0, 2.0, 3.0]);
        n = 1;
    }
    let count = c.int(0, 4);
    let mut element_blocks = c.vec(count, |c| {
        let k = c.int(0, 4);
        let (t, d, m) = if c.bool() { (ty, tdim, nodes) } else { *c.pick(&TYPES) };
        // blocks of the type in an entity of another dimension do not count
        let d = if c.chance(1, 12) { c.int(0, 3) as i32 } else { d };
        let entity = c.int(1, 5) as i32;
        let elements = c.vec(k, |c| c.vec(m, |c| c.int(1, n) as u64));
        (d, entity, t, elements)
    });
    if c.chance(9, 10) {
        let k = c.int(1, 5);
        let at = c.int(0, element_blocks.len());
        let elements = c.vec(k, |c| c.vec(nodes, |c| c.int(1, n) as u64));
        element_blocks.insert(at, (tdim, 1, ty, elements));
    }
    if element_blocks.iter().all(|b| b.3.is_empty()) {
        // the parser refuses files without any elements
        element_blocks.push((0, 1, 15, vec![vec![1]]));
    }
    let mut extra = vec![];
    for i in 1..4 {
        if c.chance(1, 4) {
            extra.push(i);
        }
    }
    File {
        format,
        size,
        crlf: format == Format::Text && c.chance(1, 4),
        version: "4.1",
        num_nodes: None,
        node_tags: None,
        element_tags: None,
        tags: (1..=n as u64).collect(),
        node_blocks,
        first_element: if c.bool() { 1 } else { c.int(1, 50) as u64 },
        element_blocks,
        extra,
        skip: None,
        style: c.int(0, 3) as u8,
        elements_first: c.chance(1, 8),
    }
}

fn dim(kind: Kind) -> usize {
    match kind {
        Kind::Tri3 | Kind::Tri6 | Kind::Quad4 | Kind::Quad9 => 2,
        _ => 3,
    }
}

/// What the file holds: None if there is no block of the type
fn expected(kind: Kind, f: &File) -> Option<Loaded> {
    let (ty, tdim, _) = gmsh(kind);
    let blocks: Vec<_> = f.element_blocks.iter().filter(|b| b.2 == ty && b.0 == tdim).collect();
    if blocks.is_empty() {
        return None;
    }
    let verts = f.nodes().iter().map(|x| x[..dim(kind)].to_vec()).collect();
    let at = |tag: u64| match f.tags.get((tag as usize).wrapping_sub(1)) {
        Some(t) if *t == tag => tag as usize - 1,
        _ => f.tags.iter().position(|t| *t == tag).unwrap(),
    };
    Some((verts, blocks.iter().flat_map(|b| b.3.iter().map(|e| e.iter().map(|t| at(*t)).collect())).collect()))
}

fn same(a: &Loaded, b: &Loaded, text: bool) -> bool {
    a.1 == b.1 && a.0.len() == b.0.len() && a.0.iter().flatten().zip(b.0.iter().flatten()).all(|(x, y)| x == y || (text && (x - y).abs() <= 1e-15 * y.abs()))
}

fn show(bytes: &[u8]) -> String {
    String::from_utf8_lossy(bytes).into_owned()
}

/// Many blocks, nodes and elements
fn huge(c: &mut Case) -> Res {
    let kind = *c.pick(&KINDS);
    let (ty, tdim, nodes) = gmsh(kind);
    let format = *c.pick(&[Format::Text, Format::Little, Format::Big]);
    let size = if format == Format::Text { 8 } else { *c.pick(&[8, 8, 4]) };
    let total = c.size(90_000).max(1);
    let elements = c.size(30_000).max(1);
    let node_blocks = c.size(400).max(1);
    let element_blocks = c.size(300).max(1);
    let mut d = c.dice();
    // Where the blocks end
    let cuts = |d: &mut Dice, k: usize, n: usize| {
        let mut v: Vec<usize> = (1..k).map(|_| d.int(0, n)).chain([n]).collect();
        v.sort();
        v
    };
    let mut from = 0;
    let node_blocks = cuts(&mut d, node_blocks, total)
        .into_iter()
        .map(|to| {
            let v = (from..to).map(|_| [0; 3].map(|_| d.sint(-400_000, 400_000) as f64 / 64.0)).collect();
            from = to;
            (d.int(0, 3) as i32, d.int(1, 100_000) as i32, v)
        })
        .collect();
    let mut from = 0;
    let mut blocks: Vec<(i32, i32, i32, Vec<Vec<u64>>)> = cuts(&mut d, element_blocks, elements)
        .into_iter()
        .map(|to| {
            let (t, dim, m) = if d.int(0, 3) > 0 { (ty, tdim, nodes) } else { TYPES[d.int(0, TYPES.len() - 1)] };
            let v = (from..to).map(|_| (0..m).map(|_| d.int(1, total) as u64).collect()).collect();
            from = to;
            (dim, d.int(1, 100_000) as i32, t, v)
        })
        .collect();
    if blocks.iter().all(|b| b.3.is_empty()) {
        blocks.push((0, 1, 15, vec![vec![1]]));
    }
    let f = File {
        format,
        size,
        crlf: format == Format::Text && c.chance(1, 4),
        version: "4.1",
        num_nodes: None,
        node_tags: None,
        element_tags: None,
        tags: (1..=total as u64).collect(),
        node_blocks,
        first_element: *c.pick(&[1, 70_000]),
        element_blocks: blocks,
        extra: vec![],
        skip: None,
        style: c.int(0, 3) as u8,
        elements_first: c.chance(1, 8),
    };
    c.note(|| format!("{:?}, {} nodes in {} blocks, {} elements in {} blocks, {:?} with numbers of {} bytes", kind, total, f.node_blocks.len(), elements, f.element_blocks.len(), format, size));
    c.nontrivial_if(total > 1000 || elements > 1000);
    c.class_if(total > 1 << 16, "more than 65536 nodes");
    c.class_if(elements > 10_000, "more than 10000 elements");
    c.class_if(f.element_blocks.len() > 100, "more than 100 blocks");
    let (bytes, _) = f.write();
    let way = c.int(0, 1) as u8;
    match (load(kind, &bytes, way)?, expected(kind, &f)) {
        (Ok(_), None) => fail!("a mesh is loaded from a file that has no {:?} elements", kind),
        (Err(e), Some(_)) => fail!("a file in order is refused: {}", e),
        (Ok(got), Some(want)) => {
            ensure_eq!((got.0.len(), got.1.len()), (want.0.len(), want.1.len()), "numbers of vertices and elements");
            for (i, (a, b)) in got.0.iter().zip(&want.0).enumerate() {
                ensure!(a == b, "vertex {} is {:?}, the file has {:?}", i, a, b);
            }
            for (i, (a, b)) in got.1.iter().zip(&want.1).enumerate() {
                ensure!(a == b, "element {} is {:?}, the file has {:?}", i, a, b);
            }
        }
        (Err(_), None) => {}
    }
    Ok(())
}

fn well_formed(c: &mut Case) -> Res {
    let kind = *c.pick(&KINDS);
    let f = gen_file(c, kind);
    let (bytes, _) = f.write();
    let way = if c.chance(1, 100) { 1 } else { 0 };
    c.note(|| format!("{:?} from {}", kind, show(&bytes)));
    let want = expected(kind, &f);
    c.class(["text", "little endian", "big endian"][f.format as usize]);
    c.class_if(want.is_none(), "no element of the type");
    c.class_if(f.element_blocks.len() > 2, "several blocks");
    c.nontrivial_if(want.as_ref().map_or(false, |w| w.1.len() > 1 && f.node_blocks.len() > 1));
    match (load(kind, &bytes, way)?, want) {
        (Ok(_), None) => fail!("a mesh is loaded from a file that has no {:?} elements", kind),
        (Err(e), Some(_)) => fail!("a file in order is refused: {}", e),
        (Ok(got), Some(want)) => ensure!(same(&got, &want, f.format == Format::Text), "loaded {:?}, the file has {:?}", got, want),
        (Err(_), None) => {}
    }
    Ok(())
}

fn in_range(m: &Loaded) -> Res {
    for (i, cell) in m.1.iter().enumerate() {
        ensure!(cell.iter().all(|v| *v < m.0.len()), "element {} of the loaded mesh is {:?}, but there are {} vertices", i, cell, m.0.len());
    }
    Ok(())
}

/// Files that cannot be loaded
fn refused(c: &mut Case) -> Res {
    let kind = *c.pick(&KINDS);
    let mut f = gen_file(c, kind);
    if expected(kind, &f).map_or(true, |w| w.1.is_empty()) {
        discard!("no element of the type");
    }
    let (ty, tdim, _) = gmsh(kind);
    let n = f.tags.len() as u64;
    let mut cut = None;
    let what = match c.int(0, 9) {
        0 => {
            // node tags with gaps
            let gap = c.int(1, 1000) as u64;
            let from = c.int(1, f.tags.len()).max(1);
            if from >= f.tags.len() {
                discard!("no gap");
            }
            for t in &mut f.tags[from..] {
                *t += gap;
            }
            let old = from as u64;
            for b in &mut f.element_blocks {
                for v in b.3.iter_mut().flatten() {
                    if *v > old {
                        *v += gap;
                    }
                }
            }
            "node tags with gaps"
        }
        1 => {
            // consecutive tags that do not start with 1: accepted if the right mesh comes out
            let shift = c.int(1, 1000) as u64;
            for t in &mut f.tags {
                *t += shift;
            }
            for b in &mut f.element_blocks {
                for v in b.3.iter_mut().flatten() {
                    *v += shift;
                }
            }
            "node tags that do not start with 1"
        }
        2 => {
            let m: u64 = f.element_blocks.iter().map(|b| b.3.len() as u64).sum();
            let g = c.int(0, 9) as u64;
            f.element_tags = Some((1, m + 1 + g));
            "element tags with gaps"
        }
        3 | 4 => {
            // an element with a node that is not in the file
            let all: Vec<usize> = (0..f.element_blocks.len()).filter(|i| f.element_blocks[*i].2 == ty && f.element_blocks[*i].0 == tdim && !f.element_blocks[*i].3.is_empty()).collect();
            let b = *c.pick(&all);
            let e = c.int(0, f.element_blocks[b].3.len() - 1);
            let k = c.int(0, f.element_blocks[b].3[e].len() - 1);
            let far = c.int(1, 5) as u64;
            f.element_blocks[b].3[e][k] = match c.int(0, 3) {
                0 => 0,
                1 if f.size == 8 => u64::MAX,
                2 => 0xffff_ffff,
                _ => n + far,
            };
            "a node that is not in the file"
        }
        5 => {
            let d = c.int(1, 3) as u64;
            f.num_nodes = Some(if c.bool() { n + d } else { n.saturating_sub(d).max(1) });
            if f.num_nodes == Some(n) {
                discard!("same");
            }
            if f.num_nodes.unwrap() < n {
                // otherwise the tags count as sparse
                f.node_tags = Some((1, f.num_nodes.unwrap()));
            }
            "a number of nodes that is not that of the blocks"
        }
        6 => {
            f.skip = Some(*c.pick(&["nodes", "elements"]));
            "a missing section"
        }
        7 => {
            f.version = *c.pick(&["2.2", "4.0", "4", "1.0"]);
            "another version"
        }
        _ => {
            cut = Some(c.unit());
            "a truncated file"
        }
    };
    let (mut bytes, needed) = f.write();
    if let Some(u) = cut {
        bytes.truncate((u * (needed - 2) as f64) as usize);
        if f.crlf && bytes.len() + 3 >= needed {
            discard!("nothing is missing");
        }
    }
    c.note(|| format!("{:?}, {}, from {}", kind, what, show(&bytes)));
    c.class(what);
    c.nontrivial();
    match load(kind, &bytes, 0)? {
        Ok(got) => {
            if what == "node tags that do not start with 1" {
                let want = expected(kind, &f).unwrap();
                ensure!(same(&got, &want, f.format == Format::Text), "{}: loaded {:?}, the file has {:?}", what, got, want);
            } else {
                fail!("{}: loaded {:?}", what, got)
            }
        }
        Err(_) => {}
    }
    Ok(())
}

/// Damaged bytes: anything but a mesh with vertices it does not have
fn damaged(c: &mut Case) -> Res {
    let kind = *c.pick(&KINDS);
    let f = gen_file(c, kind);
    let (mut bytes, _) = f.write();
    let edits = c.int(1, 4);
    for _ in 0..edits {
        if bytes.is_empty() {
            break;
        }
        // mostly in the sections themselves
        let at = if c.bool() {
            let marks: Vec<usize> = (0..bytes.len().saturating_sub(6)).filter(|i| bytes[*i..].starts_with(b"$Nodes") || bytes[*i..].starts_with(b"$Eleme")).collect();
            let base = if marks.is_empty() { 0 } else { *c.pick(&marks) };
            (base + c.int(0, 60)).min(bytes.len() - 1)
        } else {
            c.int(0, bytes.len() - 1)
        };
        match c.int(0, 6) {
            0 => bytes[at] ^= 1 << c.int(0, 7),
            1 => bytes[at] = c.int(0, 255) as u8,
            2 => {
                bytes.remove(at);
            }
            3 => {
                let b = *c.pick(b"0123456789-. \n$e");
                bytes.insert(at, b);
            }
            4 => {
                let end = (at + c.int(1, 40)).min(bytes.len());
                let part = bytes[at..end].to_vec();
                let to = c.int(0, bytes.len());
                for (i, b) in part.into_iter().enumerate() {
                    bytes.insert(to + i, b);
                }
            }
            5 => {
                let end = (at + c.int(1, 40)).min(bytes.len());
                bytes.drain(at..end);
            }
            _ => {
                // another digit
                if let Some(i) = (at..bytes.len()).find(|i| bytes[*i].is_ascii_digit()) {
                    bytes[i] = *c.pick(b"0123456789-");
                }
            }
        }
    }
    let other = if c.chance(1, 6) { *c.pick(&KINDS) } else { kind };
    c.note(|| format!("{:?} from {}", other, show(&bytes)));
    let r = load(other, &bytes, 0)?;
    c.class(if r.is_ok() { "loaded" } else { "refused" });
    c.nontrivial();
    if let Ok(m) = &r {
        in_range(m)?;
    }
    Ok(())
}

/// The reference nodes of Gmsh, in its order
fn gmsh_nodes(kind: Kind) -> Vec<[f64; 3]> {
    let mid = |a: &[f64; 3], b: &[f64; 3]| [0, 1, 2].map(|k| 0.5 * (a[k] + b[k]));
    let tri = vec![[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]];
    let tet = vec![[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    let quad = vec![[-1.0, -1.0, 0.0], [1.0, -1.0, 0.0], [1.0, 1.0, 0.0], [-1.0, 1.0, 0.0]];
    let mut hex: Vec<[f64; 3]> = quad.iter().map(|x| [x[0], x[1], -1.0]).collect();
    hex.extend(quad.iter().map(|x| [x[0], x[1], 1.0]));
    let edges = |v: &Vec<[f64; 3]>, e: &[(usize, usize)]| {
        let mut w = v.clone();
        for (a, b) in e {
            w.push(mid(&v[*a], &v[*b]));
        }
        w
    };
    match kind {
        Kind::Tri3 | Kind::Tri3d3 => tri,
        Kind::Tri6 => edges(&tri, &[(0, 1), (1, 2), (2, 0)]),
        Kind::Quad4 => quad,
        Kind::Quad9 => {
            let mut w = edges(&quad, &[(0, 1), (1, 2), (2, 3), (3, 0)]);
            w.push([0.0; 3]);
            w
        }
        Kind::Tet4 => tet,
        Kind::Tet10 => edges(&tet, &[(0, 1), (1, 2), (2, 0), (3, 0), (2, 3), (3, 1)]),
        Kind::Hex8 => hex,
        _ => {
            let mut w = edges(&hex, &[(0, 1), (0, 3), (0, 4), (1, 2), (1, 5), (2, 3), (2, 6), (3, 7), (4, 5), (4, 7), (5, 6), (6, 7)]);
            w.extend([[0.0, 0.0, -1.0], [0.0, -1.0, 0.0], [-1.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0; 3]]);
            w
        }
    }
}

/// Elements in Gmsh's node order are the elements they are meant to be
fn ordering(c: &mut Case) -> Res {
    let kind = *c.pick(&KINDS);
    let (ty, tdim, nodes) = gmsh(kind);
    let d = dim(kind);
    let count = c.int(1, 3);
    let mut verts = vec![];
    let mut elements = vec![];
    let mut maps = vec![];
    for _ in 0..count {
        let mut a = [0; 3].map(|_| [0; 3].map(|_| c.grid(4, 2)));
        for k in 0..3 {
            a[k][k] += 5.0;
        }
        let t = [0; 3].map(|_| c.grid(20, 2));
        let mut tags = vec![0; nodes];
        let order = c.permutation(nodes);
        let base = verts.len();
        verts.resize(base + nodes, [0.0; 3]);
        for (i, x) in gmsh_nodes(kind).iter().enumerate() {
            let mut y = t;
            for k in 0..3 {
                for l in 0..3 {
                    if k < d || d == 3 {
                        y[k] += a[k][l] * x[l];
                    }
                }
            }
            verts[base + order[i]] = y;
            tags[i] = (base + order[i] + 1) as u64;
        }
        elements.push(tags);
        maps.push((a, t));
    }
    let n = verts.len();
    let f = File {
        format: *c.pick(&[Format::Text, Format::Little]),
        size: 8,
        crlf: false,
        version: "4.1",
        num_nodes: None,
        node_tags: None,
        element_tags: None,
        tags: (1..=n as u64).collect(),
        node_blocks: vec![(tdim, 1, verts)],
        first_element: 1,
        element_blocks: vec![(tdim, 1, ty, elements)],
        extra: vec![],
        skip: None,
        style: 0,
        elements_first: false,
    };
    let (bytes, _) = f.write();
    c.note(|| format!("{:?} from {}", kind, show(&bytes)));
    c.nontrivial();
    let (v, cells) = match load(kind, &bytes, 0)? {
        Ok(m) => m,
        Err(e) => fail!("a file in order is refused: {}", e),
    };
    ensure_eq!(cells.len(), count, "number of elements");
    for (cell, (a, t)) in cells.iter().zip(&maps) {
        let e = kind.element_from(&v, cell);
        for _ in 0..3 {
            let xi = kind.ref_point(c);
            // from the reference cell of the library to that of Gmsh
            let x: Vec<f64> = xi.iter().map(|v| if kind.simplex() { (v + 1.0) / 2.0 } else { *v }).collect();
            let want: Vec<f64> = (0..d).map(|k| t[k] + x.iter().enumerate().map(|(l, v)| a[k][l] * v).sum::<f64>()).collect();
            let basis = e.basis(&xi);
            let sum: Vec<f64> = (0..d).map(|k| cell.iter().zip(&basis).map(|(i, b)| v[*i][k] * b).sum()).collect();
            ensure!(pbt::elems::dist(&sum, &want) <= 1e-11 * 100.0, "the nodes of {:?} interpolate position {:?}, expected {:?}", cell, sum, want);
            let got = e.map(&xi);
            ensure!(pbt::elems::dist(&got, &want) <= 1e-11 * 100.0, "element {:?} maps {:?} to {:?}, expected {:?}", cell, xi, got, want);
        }
    }
    Ok(())
}

/// Consecutive tags that are not in the order of the file
fn permuted(c: &mut Case) -> Res {
    let kind = *c.pick(&KINDS);
    let mut f = gen_file(c, kind);
    let n = f.tags.len();
    let Some(in_file_order) = expected(kind, &f) else { discard!("no element of the type") };
    if n < 2 || in_file_order.1.is_empty() {
        discard!("nothing to permute");
    }
    f.tags = c.permutation(n).iter().map(|i| *i as u64 + 1).collect();
    let (bytes, _) = f.write();
    let want = expected(kind, &f).unwrap();
    c.note(|| format!("{:?} from {}", kind, show(&bytes)));
    c.nontrivial_if(want != in_file_order);
    let text = f.format == Format::Text;
    match load(kind, &bytes, 0)? {
        Ok(m) if same(&m, &want, text) => Ok(()),
        // The tags are taken for positions in the file
        Ok(m) if same(&m, &in_file_order, text) && known_finding("C29", "dense-permuted-tags") => Ok(()),
        Ok(m) => fail!("node tags {:?}: loaded {:?}, the file has {:?}", f.tags, m, want),
        Err(_) => Ok(()),
    }
}

fn main() {
    pbt::main(Property {
        id: "C29",
        rule: "meshes with more than one element of the type and more than one block of nodes (well_formed), every case (refused, damaged, ordering), files where the order matters (permuted), more than 1000 nodes or elements (huge)",
        assumptions: &["the third-party parser mshio is trusted for the syntax of the format; where it panics on damaged bytes, that counts as an error"],
        clauses: vec![
            clause("well_formed", 900_000, 9_000_000, well_formed),
            clause("refused", 900_000, 9_000_000, refused),
            clause("damaged", 870_000, 8_700_000, damaged),
            clause("ordering", 300_000, 3_000_000, ordering),
            clause("permuted", 300_000, 3_000_000, permuted),
            clause("huge", 1500, 30_000, huge),
        ],
    })
}
