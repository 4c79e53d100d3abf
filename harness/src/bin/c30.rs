//! C30: exported VTK data.
use fenris::connectivity::*;
use fenris::io::vtk::{FiniteElementMeshDataSetBuilder, VtkCellConnectivity};
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, DimName, OPoint, U2, U3};
use fenris::vtkio::model::{Attribute, DataSet, ElementType, IOBuffer, Piece};
use pbt::*;
use std::collections::BTreeSet;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Cell {
    Segment2,
    Segment3,
    Tri3,
    Tri3d3,
    Tri6,
    Quad4,
    Quad9,
    Tet4,
    Tet10,
    Tet20,
    Hex8,
    Hex20,
    Hex27,
}
use Cell::*;

const CELLS: [Cell; 13] = [Segment2, Segment3, Tri3, Tri3d3, Tri6, Quad4, Quad9, Tet4, Tet10, Tet20, Hex8, Hex20, Hex27];

/// Each node of an element as the set of the corners it is the mean of
type Nodes = Vec<BTreeSet<usize>>;

fn nodes(corners: usize, rest: &[&[usize]]) -> Nodes {
    let mut v: Nodes = (0..corners).map(|i| BTreeSet::from([i])).collect();
    v.extend(rest.iter().map(|s| s.iter().copied().collect()));
    v
}

/// Nodes of the library's elements (the documented order is that of Gmsh)
fn library_nodes(cell: Cell) -> Nodes {
    let e12: [&[usize]; 12] = [&[0, 1], &[0, 3], &[0, 4], &[1, 2], &[1, 5], &[2, 3], &[2, 6], &[3, 7], &[4, 5], &[4, 7], &[5, 6], &[6, 7]];
    match cell {
        Segment2 | Segment3 => nodes(2, &[]),
        Tri3 | Tri3d3 => nodes(3, &[]),
        Tri6 => nodes(3, &[&[0, 1], &[1, 2], &[0, 2]]),
        Quad4 => nodes(4, &[]),
        Quad9 => nodes(4, &[&[0, 1], &[1, 2], &[2, 3], &[0, 3], &[0, 1, 2, 3]]),
        Tet4 | Tet20 => nodes(4, &[]),
        Tet10 => nodes(4, &[&[0, 1], &[1, 2], &[0, 2], &[0, 3], &[2, 3], &[1, 3]]),
        Hex8 => nodes(8, &[]),
        Hex20 => nodes(8, &e12),
        Hex27 => {
            let mut v = nodes(8, &e12);
            v.extend(nodes(0, &[&[0, 1, 2, 3], &[0, 1, 4, 5], &[0, 3, 4, 7], &[1, 2, 5, 6], &[2, 3, 6, 7], &[4, 5, 6, 7], &[0, 1, 2, 3, 4, 5, 6, 7]]));
            v
        }
    }
}

/// VTK's cell types that can represent the element, by number, with their nodes in VTK's order
fn vtk_nodes(cell: Cell) -> Vec<(u8, Nodes)> {
    let e12: [&[usize]; 12] = [&[0, 1], &[1, 2], &[2, 3], &[0, 3], &[4, 5], &[5, 6], &[6, 7], &[4, 7], &[0, 4], &[1, 5], &[2, 6], &[3, 7]];
    match cell {
        Segment2 | Segment3 => vec![(3, nodes(2, &[]))],
        Tri3 | Tri3d3 => vec![(5, nodes(3, &[]))],
        Tri6 => vec![(22, nodes(3, &[&[0, 1], &[1, 2], &[0, 2]]))],
        Quad4 => vec![(9, nodes(4, &[]))],
        Quad9 => {
            let edges: [&[usize]; 4] = [&[0, 1], &[1, 2], &[2, 3], &[0, 3]];
            let mut full = nodes(4, &edges);
            full.extend(nodes(0, &[&[0, 1, 2, 3]]));
            vec![(28, full), (23, nodes(4, &edges))]
        }
        // Only the corners are exported
        Tet4 | Tet20 => vec![(10, nodes(4, &[]))],
        Tet10 => vec![(24, nodes(4, &[&[0, 1], &[1, 2], &[0, 2], &[0, 3], &[1, 3], &[2, 3]]))],
        Hex8 => vec![(12, nodes(8, &[]))],
        Hex20 => vec![(25, nodes(8, &e12))],
        Hex27 => {
            let mut full = nodes(8, &e12);
            full.extend(nodes(0, &[&[0, 3, 4, 7], &[1, 2, 5, 6], &[0, 1, 4, 5], &[2, 3, 6, 7], &[0, 1, 2, 3], &[4, 5, 6, 7], &[0, 1, 2, 3, 4, 5, 6, 7]]));
            vec![(25, nodes(8, &e12)), (29, full)]
        }
    }
}

fn arity(cell: Cell) -> usize {
    match cell {
        Tet20 => 20,
        _ => library_nodes(cell).len(),
    }
}

fn dim(cell: Cell) -> usize {
    match cell {
        Segment2 | Tri3 | Tri6 | Quad4 | Quad9 => 2,
        _ => 3,
    }
}

#[derive(Debug, Clone)]
enum Values {
    F64(Vec<f64>),
    F32(Vec<f32>),
    I32(Vec<i32>),
    U64(Vec<u64>),
    I64(Vec<i64>),
    U8(Vec<u8>),
}

impl Values {
    fn buffer(&self) -> IOBuffer {
        match self.clone() {
            Values::F64(v) => IOBuffer::F64(v),
            Values::F32(v) => IOBuffer::F32(v),
            Values::I32(v) => IOBuffer::I32(v),
            Values::U64(v) => IOBuffer::U64(v),
            Values::I64(v) => IOBuffer::I64(v),
            Values::U8(v) => IOBuffer::U8(v),
        }
    }
    /// Padded from n to 3 components
    fn padded(&self, n: usize) -> Values {
        fn pad<T: Clone + Default>(v: &[T], n: usize) -> Vec<T> {
            let mut out = vec![];
            for x in v.chunks(n) {
                out.extend_from_slice(x);
                out.resize(out.len() + 3 - n, T::default());
            }
            out
        }
        match self {
            Values::F64(v) => Values::F64(pad(v, n)),
            Values::F32(v) => Values::F32(pad(v, n)),
            Values::I32(v) => Values::I32(pad(v, n)),
            Values::U64(v) => Values::U64(pad(v, n)),
            Values::I64(v) => Values::I64(pad(v, n)),
            Values::U8(v) => Values::U8(pad(v, n)),
        }
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Place {
    PointVector,
    PointScalar,
    CellScalar,
}

#[derive(Debug, Clone)]
struct Attr {
    place: Place,
    name: String,
    comps: usize,
    values: Values,
}

#[derive(Debug, Clone)]
struct Input {
    cell: Cell,
    single: bool,
    vertices: Vec<Vec<f64>>,
    cells: Vec<Vec<usize>>,
    attrs: Vec<Attr>,
    title: Option<String>,
    /// The title is set before this attribute
    title_at: usize,
}

fn gen_values(c: &mut Case, n: usize) -> Values {
    match c.int(0, 5) {
        0 | 1 => Values::F64(c.vec(n, |c| {
            let m = c.magnitude(-300.0, 300.0);
            let s = c.f64(-1.0, 1.0);
            m * s
        })),
        2 => Values::F32(c.vec(n, |c| c.f64(-10.0, 10.0) as f32)),
        3 => Values::I32(c.vec(n, |c| c.below(u64::MAX) as i32)),
        4 => Values::U64(c.vec(n, |c| c.below(u64::MAX))),
        5 if c.bool() => Values::I64(c.vec(n, |c| c.below(u64::MAX) as i64)),
        _ => Values::U8(c.vec(n, |c| c.int(0, 255) as u8)),
    }
}

fn gen_input(c: &mut Case, file: bool) -> Input {
    let cell = *c.pick(&CELLS);
    let n = if file { c.int(1, 12) } else { c.int(0, 30) };
    let count = if n == 0 { 0 } else if file { c.int(1, 5) } else { c.int(0, 10) };
    let single = c.chance(1, 3);
    let vertices = c.vec(n, |c| {
        c.vec(dim(cell), |c| {
            let m = c.magnitude(-30.0, 30.0);
            let x = c.f64(-1.0, 1.0) * m;
            if single {
                x as f32 as f64
            } else {
                x
            }
        })
    });
    let a = arity(cell);
    let cells = c.vec(count, |c| if n >= a { c.distinct(a, n) } else { c.vec(a, |c| c.int(0, n - 1)) });
    let m = c.int(0, 5);
    let attrs = (0..m)
        .map(|i| {
            let place = *c.pick(&[Place::PointVector, Place::PointScalar, Place::CellScalar]);
            // VTK's scalars have at most four components
            let comps = if place == Place::PointVector { c.int(1, 3) } else if file { c.int(1, 4) } else { c.int(1, 12) };
            let size = comps * if place == Place::CellScalar { count } else { n };
            let name = if !file && c.chance(1, 4) { "same name".to_string() } else { format!("attr_{}", i) };
            Attr { place, name, comps, values: gen_values(c, size) }
        })
        .collect();
    let title = if c.bool() { Some(format!("Title {}", c.int(0, 99))) } else { None };
    let title_at = c.int(0, m);
    Input { cell, single, vertices, cells, attrs, title, title_at }
}

fn with_attr<'a, T, D, C>(b: FiniteElementMeshDataSetBuilder<'a, T, D, C>, a: &Attr) -> FiniteElementMeshDataSetBuilder<'a, T, D, C>
where
    T: fenris::Real + fenris::nalgebra::Scalar,
    D: DimName,
    DefaultAllocator: Allocator<T, D>,
    T: num::ToPrimitive,
{
    macro_rules! add {
        ($v:expr) => {
            match a.place {
                Place::PointVector => b.with_point_vector_attributes(a.name.clone(), a.comps, $v),
                Place::PointScalar => b.with_point_scalar_attributes(a.name.clone(), a.comps, $v),
                Place::CellScalar => b.with_cell_scalar_attributes(a.name.clone(), a.comps, $v),
            }
        };
    }
    match &a.values {
        Values::F64(v) => add!(v),
        Values::F32(v) => add!(v),
        Values::I32(v) => add!(v),
        Values::U64(v) => add!(v),
        Values::I64(v) => add!(v),
        Values::U8(v) => add!(v),
    }
}

enum Job<'a> {
    Build,
    Export(&'a std::path::Path),
}

fn run<T, D, C>(i: &Input, job: &Job, conn: impl Fn(&[usize]) -> C) -> Result<DataSet, String>
where
    T: fenris::Real + num::ToPrimitive,
    D: DimName,
    C: VtkCellConnectivity,
    DefaultAllocator: Allocator<T, D>,
{
    let vertices = i.vertices.iter().map(|v| OPoint::<T, D>::from(fenris::nalgebra::OVector::<T, D>::from_fn(|k, _| T::from_f64(v[k]).unwrap()))).collect();
    let mesh: Mesh<T, D, C> = Mesh::from_vertices_and_connectivity(vertices, i.cells.iter().map(|c| conn(c)).collect());
    let mut b = FiniteElementMeshDataSetBuilder::from_mesh(&mesh);
    for k in 0..=i.attrs.len() {
        if k == i.title_at {
            if let Some(t) = &i.title {
                b = b.with_title(t.clone());
            }
        }
        if let Some(a) = i.attrs.get(k) {
            b = with_attr(b, a);
        }
    }
    if let Job::Export(path) = job {
        b.try_export(path).map_err(|e| e.to_string())?;
    }
    b.try_build().map_err(|e| e.to_string())
}

fn dispatch(i: &Input, job: Job) -> Result<DataSet, String> {
    macro_rules! go {
        ($d:ty, $c:ident) => {{
            let conn = |c: &[usize]| $c(c.try_into().unwrap());
            if i.single {
                run::<f32, $d, _>(i, &job, conn)
            } else {
                run::<f64, $d, _>(i, &job, conn)
            }
        }};
    }
    match i.cell {
        Segment2 => go!(U2, Segment2d2Connectivity),
        Segment3 => go!(U3, Segment2d3Connectivity),
        Tri3 => go!(U2, Tri3d2Connectivity),
        Tri3d3 => go!(U3, Tri3d3Connectivity),
        Tri6 => go!(U2, Tri6d2Connectivity),
        Quad4 => go!(U2, Quad4d2Connectivity),
        Quad9 => go!(U2, Quad9d2Connectivity),
        Tet4 => go!(U3, Tet4Connectivity),
        Tet10 => go!(U3, Tet10Connectivity),
        Tet20 => go!(U3, Tet20Connectivity),
        Hex8 => go!(U3, Hex8Connectivity),
        Hex20 => go!(U3, Hex20Connectivity),
        Hex27 => go!(U3, Hex27Connectivity),
    }
}

#[derive(Debug, Clone)]
struct Array {
    name: String,
    comps: usize,
    /// None: not known
    vectors: Option<bool>,
    data: IOBuffer,
}

#[derive(Debug)]
struct Content {
    points: IOBuffer,
    cells: Vec<(u8, Vec<u32>)>,
    point: Vec<Array>,
    cell: Vec<Array>,
}

fn cells_of(types: &[u8], num: usize, verts: &[u32]) -> Result<Vec<(u8, Vec<u32>)>, Stop> {
    ensure_eq!(num, types.len(), "number of cells, number of cell types");
    let mut at = 0;
    let mut cells = vec![];
    for ty in types {
        let Some(&n) = verts.get(at) else { fail!("the list of cells ends at {}: {:?}", at, verts) };
        let n = n as usize;
        ensure!(at + 1 + n <= verts.len(), "the list of cells ends within a cell: {:?}", verts);
        cells.push((*ty, verts[at + 1..at + 1 + n].to_vec()));
        at += 1 + n;
    }
    ensure_eq!(at, verts.len(), "length of the list of cells");
    Ok(cells)
}

fn content(data: &DataSet, from_file: bool) -> Result<Content, Stop> {
    let DataSet::UnstructuredGrid { pieces, .. } = data else { fail!("the data set is not an unstructured grid: {:?}", data) };
    ensure_eq!(pieces.len(), 1, "number of pieces");
    let Piece::Inline(piece) = &pieces[0] else { fail!("the piece is not inline") };
    let (num, verts) = piece.cells.cell_verts.clone().into_legacy();
    let types: Vec<u8> = piece.cells.types.iter().map(|t| *t as u8).collect();
    let arrays = |list: &[Attribute]| -> Result<Vec<Array>, Stop> {
        let mut out = vec![];
        for a in list {
            let Attribute::DataArray(d) = a else { fail!("attribute {:?} is not an array", a) };
            let vectors = match d.elem {
                _ if from_file => None,
                ElementType::Vectors => Some(true),
                ElementType::Scalars { .. } => Some(false),
                _ => fail!("attribute {} has type {:?}", d.name, d.elem),
            };
            out.push(Array { name: d.name.clone(), comps: d.num_comp() as usize, vectors, data: d.data.clone() });
        }
        Ok(out)
    };
    Ok(Content { points: piece.points.clone(), cells: cells_of(&types, num as usize, &verts)?, point: arrays(&piece.data.point)?, cell: arrays(&piece.data.cell)? })
}

/// Reads the legacy format (binary, big endian)
struct Legacy<'a> {
    b: &'a [u8],
    at: usize,
}

impl<'a> Legacy<'a> {
    /// The next line, none at the end
    fn any_line(&mut self) -> Option<String> {
        if self.at >= self.b.len() {
            return None;
        }
        let end = self.b[self.at..].iter().position(|x| *x == b'\n').map_or(self.b.len(), |i| self.at + i);
        let line = String::from_utf8_lossy(&self.b[self.at..end]).into_owned();
        self.at = end + 1;
        Some(line)
    }
    /// The next line with contents
    fn line(&mut self) -> Option<Vec<String>> {
        loop {
            let words: Vec<String> = self.any_line()?.split_whitespace().map(|w| w.to_string()).collect();
            if !words.is_empty() {
                return Some(words);
            }
        }
    }
    fn expect(&mut self, first: &str, n: usize) -> Result<Vec<String>, Stop> {
        match self.line() {
            Some(w) if w[0] == first && w.len() == n => Ok(w),
            other => fail!("legacy file: expected {} at {}, found {:?}", first, self.at, other),
        }
    }
    fn bytes<const N: usize>(&mut self, n: usize) -> Result<Vec<[u8; N]>, Stop> {
        ensure!(self.at + n * N <= self.b.len(), "legacy file: {} values are missing", n);
        let v = self.b[self.at..self.at + n * N].chunks(N).map(|c| c.try_into().unwrap()).collect();
        self.at += n * N;
        Ok(v)
    }
    fn data(&mut self, ty: &str, n: usize) -> Result<IOBuffer, Stop> {
        Ok(match ty {
            "double" => IOBuffer::F64(self.bytes(n)?.into_iter().map(f64::from_be_bytes).collect()),
            "float" => IOBuffer::F32(self.bytes(n)?.into_iter().map(f32::from_be_bytes).collect()),
            "int" => IOBuffer::I32(self.bytes(n)?.into_iter().map(i32::from_be_bytes).collect()),
            "unsigned_long" => IOBuffer::U64(self.bytes(n)?.into_iter().map(u64::from_be_bytes).collect()),
            "long" => IOBuffer::I64(self.bytes(n)?.into_iter().map(i64::from_be_bytes).collect()),
            "unsigned_char" => IOBuffer::U8(self.bytes(n)?.into_iter().map(u8::from_be_bytes).collect()),
            _ => fail!("legacy file: values of type {}", ty),
        })
    }
    fn ints(&mut self, n: usize) -> Result<Vec<u32>, Stop> {
        Ok(self.bytes(n)?.into_iter().map(u32::from_be_bytes).collect())
    }
}

fn number(s: &str) -> Result<usize, Stop> {
    match s.parse() {
        Ok(n) => Ok(n),
        Err(_) => fail!("legacy file: {:?} is not a number", s),
    }
}

fn read_legacy(b: &[u8]) -> Result<(String, Content), Stop> {
    let mut r = Legacy { b, at: 0 };
    let head = r.any_line().unwrap_or_default();
    ensure!(head.starts_with("# vtk DataFile Version "), "legacy file: starts with {:?}", head);
    let title = r.any_line().unwrap_or_default();
    r.expect("BINARY", 1)?;
    let w = r.expect("DATASET", 2)?;
    ensure_eq!(w[1], "UNSTRUCTURED_GRID", "data set");
    let w = r.expect("POINTS", 3)?;
    let np = number(&w[1])?;
    let points = r.data(&w[2], 3 * np)?;
    let w = r.expect("CELLS", 3)?;
    let nc = number(&w[1])?;
    let verts = r.ints(number(&w[2])?)?;
    let w = r.expect("CELL_TYPES", 2)?;
    let types: Vec<u8> = r.ints(number(&w[1])?)?.into_iter().map(|t| t as u8).collect();
    let cells = cells_of(&types, nc, &verts)?;
    let (mut point, mut cell) = (vec![], vec![]);
    let mut in_points = true;
    let mut count = 0;
    while let Some(w) = r.line() {
        let w: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
        let array = match w[..] {
            ["POINT_DATA", n] => {
                in_points = true;
                count = number(n)?;
                ensure_eq!(count, np, "number of points with data");
                continue;
            }
            ["CELL_DATA", n] => {
                in_points = false;
                count = number(n)?;
                ensure_eq!(count, nc, "number of cells with data");
                continue;
            }
            ["VECTORS", name, ty] => Array { name: name.to_string(), comps: 3, vectors: Some(true), data: r.data(ty, 3 * count)? },
            ["SCALARS", name, ty, comps] => {
                let comps = number(comps)?;
                r.expect("LOOKUP_TABLE", 2)?;
                Array { name: name.to_string(), comps, vectors: Some(false), data: r.data(ty, comps * count)? }
            }
            _ => fail!("legacy file: line {:?}", w),
        };
        if in_points { &mut point } else { &mut cell }.push(array);
    }
    Ok((title, Content { points, cells, point, cell }))
}

fn check_data(i: &Input, data: &Content) -> Res {
    let points: Vec<f64> = i.vertices.iter().flat_map(|v| (0..3).map(move |k| v.get(k).copied().unwrap_or(0.0))).collect();
    match (&data.points, i.single) {
        (IOBuffer::F64(v), false) => ensure!(v == &points, "points {:?}, expected {:?}", v, points),
        (IOBuffer::F32(v), true) => ensure!(v.iter().map(|x| *x as f64).eq(points.iter().copied()), "points {:?}, expected {:?}", v, points),
        (v, _) => fail!("points {:?}, expected {:?}", v, points),
    }
    ensure_eq!(data.cells.len(), i.cells.len(), "number of cells");
    let lib = library_nodes(i.cell);
    for (cell, (ty, got)) in i.cells.iter().zip(&data.cells) {
        let options = vtk_nodes(i.cell);
        let Some((_, order)) = options.iter().find(|o| o.0 == *ty) else { fail!("a {:?} is exported as a cell of type {}", i.cell, ty) };
        let want: Vec<u32> = order.iter().map(|s| cell[lib.iter().position(|t| t == s).unwrap()] as u32).collect();
        ensure!(got == &want, "cell {:?} exported as cell type {} {:?}, expected nodes {:?}", cell, ty, got, want);
    }
    for (got, points) in [(&data.point, true), (&data.cell, false)] {
        let want: Vec<&Attr> = i.attrs.iter().filter(|a| (a.place != Place::CellScalar) == points).collect();
        let names = (got.iter().map(|d| &d.name).collect::<Vec<_>>(), want.iter().map(|a| &a.name).collect::<Vec<_>>());
        ensure!(names.0 == names.1, "{} attributes {:?}, expected {:?}", if points { "point" } else { "cell" }, names.0, names.1);
        for (d, a) in got.iter().zip(&want) {
            let vectors = a.place == Place::PointVector;
            let (comps, values) = if vectors { (3, a.values.padded(a.comps)) } else { (a.comps, a.values.clone()) };
            ensure_eq!(d.comps, comps, "number of components of {:?}", a);
            ensure!(same_buffer(&d.data, &values.buffer()), "attribute {:?} is exported as {:?}", a, d.data);
            ensure!(d.vectors.map_or(true, |v| v == vectors), "attribute {:?} is exported as {}", a, if vectors { "scalars" } else { "vectors" });
        }
    }
    Ok(())
}

fn same_buffer(a: &IOBuffer, b: &IOBuffer) -> bool {
    // empty arrays have no type
    a == b || (a.is_empty() && b.is_empty())
}

fn note(c: &mut Case, i: &Input) {
    c.note_debug("input", i);
    c.class(["segment 2d", "segment 3d", "tri3", "tri3 3d", "tri6", "quad4", "quad9", "tet4", "tet10", "tet20", "hex8", "hex20", "hex27"][i.cell as usize]);
    c.class_if(!i.attrs.is_empty(), "attributes");
    c.nontrivial_if(i.cells.len() > 1 && !i.attrs.is_empty());
}

fn build(c: &mut Case) -> Res {
    let i = gen_input(c, false);
    note(c, &i);
    match dispatch(&i, Job::Build) {
        Ok(d) => check_data(&i, &content(&d, false)?),
        Err(e) => fail!("no data set: {}", e),
    }
}

/// Meshes with many vertices and cells
fn huge(c: &mut Case) -> Res {
    let cell = *c.pick(&CELLS);
    let n = c.size(80_000).max(30);
    let count = c.size(40_000).max(1);
    let single = c.chance(1, 3);
    let m = c.int(0, 3);
    let how = (0..m).map(|_| (*c.pick(&[Place::PointVector, Place::PointScalar, Place::CellScalar]), c.int(1, 3), c.int(0, 3))).collect::<Vec<_>>();
    let mut d = c.dice();
    let vertices = (0..n).map(|_| (0..dim(cell)).map(|_| d.sint(-100_000, 100_000) as f64 / 64.0).collect()).collect();
    let a = arity(cell);
    let cells = (0..count).map(|_| (0..a).map(|_| d.int(0, n - 1)).collect()).collect();
    let attrs = how
        .iter()
        .enumerate()
        .map(|(i, (place, comps, ty))| {
            let size = comps * if *place == Place::CellScalar { count } else { n };
            let values = match ty {
                0 => Values::F64((0..size).map(|_| d.f64(-5.0, 5.0)).collect()),
                1 => Values::F32((0..size).map(|_| d.f64(-5.0, 5.0) as f32).collect()),
                2 => Values::I32((0..size).map(|_| d.sint(-1 << 31, (1 << 31) - 1) as i32).collect()),
                _ => Values::U8((0..size).map(|_| d.int(0, 255) as u8).collect()),
            };
            Attr { place: *place, name: format!("attr_{}", i), comps: *comps, values }
        })
        .collect();
    let i = Input { cell, single, vertices, cells, attrs, title: None, title_at: 0 };
    c.note(|| format!("{} vertices, {} cells {:?}, attributes {:?}", n, count, cell, how));
    c.nontrivial_if(n > 1000 || count > 1000);
    c.class_if(n > 1 << 16, "more than 65536 vertices");
    c.class_if(a * count > 1 << 16, "more than 65536 nodes of cells");
    if !c.chance(1, 4) {
        return match dispatch(&i, Job::Build) {
            Ok(d) => check_data(&i, &content(&d, false)?),
            Err(e) => fail!("no data set: {}", e),
        };
    }
    c.class("file");
    let dir = Scratch::new();
    let path = dir.0.join("mesh.vtk");
    if let Err(e) = dispatch(&i, Job::Export(&path)) {
        fail!("no file {}: {}", path.display(), e)
    }
    check_data(&i, &read_legacy(&std::fs::read(&path).unwrap_or_default())?.1)
}

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Scratch {
        use std::sync::atomic::*;
        static N: AtomicUsize = AtomicUsize::new(0);
        let dir = Scratch(std::env::temp_dir().join(format!("fenris-pbt-vtk-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst))));
        std::fs::create_dir_all(&dir.0).expect("cannot create a scratch folder");
        dir
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn files(c: &mut Case) -> Res {
    let i = gen_input(c, true);
    note(c, &i);
    let ext = *c.pick(&["vtk", "vtu"]);
    let stem = *c.pick(&["mesh", "a.b", "some mesh"]);
    let nested = c.bool();
    c.class(ext);
    let dir = Scratch::new();
    let mut path = dir.0.clone();
    if nested {
        path = path.join("x").join("y");
    }
    let path = path.join(format!("{}.{}", stem, ext));
    if let Err(e) = dispatch(&i, Job::Export(&path)) {
        fail!("no file {}: {}", path.display(), e)
    }
    if ext == "vtk" {
        let (title, data) = read_legacy(&std::fs::read(&path).unwrap_or_default())?;
        ensure_eq!(title, i.title.clone().unwrap_or(stem.to_string()), "title");
        return check_data(&i, &data);
    }
    match catch(|| fenris::vtkio::Vtk::import(&path)) {
        Ok(Ok(v)) => check_data(&i, &content(&v.data, true)?),
        Ok(Err(e)) => fail!("the file {} cannot be read: {}", path.display(), e),
        Err(p) => fail!("the file {} cannot be read: {}", path.display(), p.message),
    }
}

fn refused(c: &mut Case) -> Res {
    let mut i = gen_input(c, true);
    let what = c.int(0, 2);
    if what == 2 {
        // indices that VTK cannot represent
        let k = c.int(0, i.cells.len() - 1);
        // the first corners are exported for all elements
        let l = c.int(0, 1);
        i.cells[k][l] = u32::MAX as usize + 1 + c.int(0, 5);
        c.note_debug("input", &i);
        c.class("node index out of range");
        c.nontrivial();
        if let Ok(d) = dispatch(&i, Job::Build) {
            fail!("a data set for a mesh with node indices that do not fit: {:?}", d);
        }
        return Ok(());
    }
    let place = *c.pick(&[Place::PointVector, Place::PointScalar, Place::CellScalar]);
    let count = if place == Place::CellScalar { i.cells.len() } else { i.vertices.len() };
    let (comps, size) = if what == 0 {
        let comps = c.int(1, 3);
        let off = c.int(1, 4);
        let right = comps * count;
        let size = if c.bool() { right + off } else { right.saturating_sub(off) };
        c.class("size");
        (comps, size)
    } else {
        let comps = c.int(4, 6);
        c.class("components");
        (comps, comps * count)
    };
    let place = if what == 1 { Place::PointVector } else { place };
    let size = if what == 1 { comps * i.vertices.len() } else { size };
    let at = c.int(0, i.attrs.len());
    i.attrs.insert(at, Attr { place, name: "bad".to_string(), comps, values: Values::F64(vec![1.0; size]) });
    c.note_debug("input", &i);
    c.nontrivial();
    match catch(|| dispatch(&i, Job::Build)) {
        Ok(Ok(d)) => fail!("attribute {:?} is accepted: {:?}", i.attrs[at], d),
        _ => Ok(()),
    }
}

fn main() {
    pbt::main(Property {
        id: "C30",
        rule: "meshes of several cells with attributes (build, files), every case (refused), more than 1000 vertices or cells (huge)",
        assumptions: &["XML files are read back with the third-party library vtkio, which also writes them; legacy files with a reader of the harness"],
        clauses: vec![
            clause("build", 1_700_000, 17_000_000, build),
            clause("files", 76_000, 760_000, files),
            clause("refused", 900_000, 9_000_000, refused),
            clause("huge", 1500, 30_000, huge),
        ],
    })
}
