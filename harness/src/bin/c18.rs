//! C18: boundary, surface and sub-meshes.
use fenris::allocators::BiDimAllocator;
use fenris::connectivity::*;
use fenris::element::ElementConnectivity;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::{DefaultAllocator, Vector3};
use pbt::elems::*;
use pbt::meshes::*;
use pbt::*;
use std::collections::{BTreeMap, BTreeSet};

/// Cell kinds for which the library offers faces
const FACED: [Kind; 10] = [Kind::Tri3, Kind::Tri6, Kind::Tri3d3, Kind::Quad4, Kind::Quad9, Kind::Tet4, Kind::Tet10, Kind::Hex8, Kind::Hex20, Kind::Hex27];

macro_rules! for_faced {
    ($kind:expr, $C:ident => $body:expr) => {
        match $kind {
            Kind::Tri3 => { type $C = Tri3d2Connectivity; $body }
            Kind::Tri6 => { type $C = Tri6d2Connectivity; $body }
            Kind::Tri3d3 => { type $C = Tri3d3Connectivity; $body }
            Kind::Quad4 => { type $C = Quad4d2Connectivity; $body }
            Kind::Quad9 => { type $C = Quad9d2Connectivity; $body }
            Kind::Tet4 => { type $C = Tet4Connectivity; $body }
            Kind::Tet10 => { type $C = Tet10Connectivity; $body }
            Kind::Hex8 => { type $C = Hex8Connectivity; $body }
            Kind::Hex20 => { type $C = Hex20Connectivity; $body }
            Kind::Hex27 => { type $C = Hex27Connectivity; $body }
            k => panic!("{:?} has no faces", k),
        }
    };
}

/// Local nodes on each facet of the reference element
fn facets(kind: Kind) -> Vec<BTreeSet<usize>> {
    let refs = kind.ref_nodes();
    let d = kind.rdim();
    let on = |f: &dyn Fn(&[f64]) -> f64| -> BTreeSet<usize> { (0..refs.len()).filter(|i| f(&refs[*i]).abs() < 1e-9).collect() };
    let mut out = vec![];
    for k in 0..d {
        out.push(on(&|x| x[k] + 1.0));
        if !kind.simplex() {
            out.push(on(&|x| x[k] - 1.0));
        }
    }
    if kind.simplex() {
        out.push(on(&|x| x.iter().sum::<f64>() + d as f64 - 2.0));
    }
    out
}

fn set(v: &[usize]) -> BTreeSet<usize> {
    v.iter().copied().collect()
}

/// Cells with random, small node numbers: everything is shared with everything
fn soup(c: &mut Case, kind: Kind) -> GMesh {
    let nn = kind.ref_nodes().len();
    let n = nn + c.int(0, 4);
    let k = c.int(0, 6);
    let mut cells: Vec<Vec<usize>> = vec![];
    for _ in 0..k {
        // often a copy of another cell with few nodes exchanged, so that faces are shared
        let mut cell = if !cells.is_empty() && c.chance(2, 3) { c.pick(&cells).clone() } else { c.distinct(nn, n) };
        for _ in 0..c.int(0, 2) {
            let i = c.int(0, nn - 1);
            let j = c.int(0, n - 1);
            match cell.iter().position(|x| *x == j) {
                Some(p) => cell.swap(p, i),
                None => cell[i] = j,
            }
        }
        cells.push(cell);
    }
    // positions are all different
    let verts = (0..n).map(|i| (0..kind.gdim()).map(|k| if k == 0 { i as f64 } else { c.sint(-5, 5) as f64 }).collect()).collect();
    GMesh { kind, verts, cells }
}

fn gen(c: &mut Case, kinds: &[Kind]) -> (GMesh, bool) {
    let kind = *c.pick(kinds);
    if c.chance(1, 3) {
        c.class("soup");
        (soup(c, kind), false)
    } else {
        (gen_mesh(c, kind, &MeshOpts { max_cells: 24, empty: true, ..Default::default() }), true)
    }
}

fn note(c: &mut Case, g: &GMesh) {
    c.note(|| format!("{:?} mesh, {} vertices {:?}, cells {:?}", g.kind, g.verts.len(), g.verts, g.cells));
}

/// Corners of a face in order, from its nodes; `dim` is the dimension of the face
fn face_corners(nodes: &[usize], dim: usize) -> Vec<usize> {
    match (dim, nodes.len()) {
        (1, 2) => nodes.to_vec(),
        (1, 3) => vec![nodes[0], nodes[2]],
        (2, 3) | (2, 6) => nodes[..3].to_vec(),
        (2, _) => nodes[..4].to_vec(),
        _ => panic!("face of dimension {} with {} nodes", dim, nodes.len()),
    }
}

/// Corners every node of the face is the mean of
fn face_weights(n: usize, dim: usize) -> Vec<Vec<usize>> {
    match (dim, n) {
        (1, 2) => vec![vec![0], vec![1]],
        (1, 3) => vec![vec![0], vec![0, 1], vec![1]],
        (2, 3) => vec![vec![0], vec![1], vec![2]],
        (2, 6) => vec![vec![0], vec![1], vec![2], vec![0, 1], vec![1, 2], vec![2, 0]],
        (2, _) => vec![vec![0], vec![1], vec![2], vec![3], vec![0, 1], vec![1, 2], vec![2, 3], vec![3, 0], vec![0, 1, 2, 3]][..n].to_vec(),
        _ => panic!(),
    }
}

fn v3(p: &[f64]) -> Vector3<f64> {
    Vector3::from_fn(|i, _| p.get(i).copied().unwrap_or(0.0))
}

/// The faces of a cell are the facets of the reference element, with their nodes in the order of the face element, and
/// oriented outwards
fn faces(c: &mut Case) -> Res {
    let kind = *c.pick(&FACED);
    let nn = kind.ref_nodes().len();
    let extra = c.int(0, 20);
    let cell = c.distinct(nn, nn + extra);
    c.note(|| format!("{:?} {:?}", kind, cell));
    c.nontrivial();
    let expected: BTreeSet<BTreeSet<usize>> = facets(kind).iter().map(|f| f.iter().map(|i| cell[*i]).collect()).collect();
    // (nodes of the face, nodes of its edges)
    let mut got: Vec<(Vec<usize>, Vec<Vec<usize>>)> = vec![];
    for_faced!(kind, C => {
        let conn = C::from_indices(&cell);
        ensure_eq!(conn.vertex_indices(), &cell[..]);
        for i in 0..conn.num_faces() {
            let f = conn.get_face_connectivity(i).ok_or_else(|| format!("face {} is missing", i))?;
            let edges = (0..f.num_faces()).map(|k| f.get_face_connectivity(k).expect("edge").vertex_indices().to_vec()).collect();
            for k in f.num_faces()..f.num_faces() + 3 {
                ensure!(f.get_face_connectivity(k).is_none(), "edge {} of a face exists", k);
            }
            got.push((f.vertex_indices().to_vec(), edges));
        }
        for i in conn.num_faces()..conn.num_faces() + 4 {
            ensure!(conn.get_face_connectivity(i).is_none(), "face {} exists", i);
        }
    });
    ensure!(got.len() == expected.len(), "{} faces", got.len());
    ensure_eq!(got.iter().map(|f| set(&f.0)).collect::<BTreeSet<_>>(), expected);
    let refs = kind.ref_nodes();
    let pos = |node: usize| v3(&refs[cell.iter().position(|x| *x == node).unwrap()]);
    let dim = kind.rdim() - 1;
    let center = if kind.simplex() { -Vector3::from_fn(|i, _| if i < kind.rdim() { (kind.rdim() - 1) as f64 / (kind.rdim() + 1) as f64 } else { 0.0 }) } else { Vector3::zeros() };
    for (f, edges) in &got {
        ensure!(set(f).len() == f.len(), "face {:?} has repeated nodes", f);
        let corners: Vec<Vector3<f64>> = face_corners(f, dim).iter().map(|i| pos(*i)).collect();
        for (node, w) in f.iter().zip(face_weights(f.len(), dim)) {
            let exp = w.iter().map(|i| corners[*i]).sum::<Vector3<f64>>() / w.len() as f64;
            ensure!((pos(*node) - exp).norm() < 1e-12, "face {:?}: node {} is at {:?} of the reference element, but its place in the face is at {:?}", f, node, pos(*node), exp);
        }
        // area vector
        let area = if dim == 1 {
            let t = corners[1] - corners[0];
            Vector3::new(t.y, -t.x, 0.0)
        } else {
            (1..corners.len() - 1).map(|i| (corners[i] - corners[0]).cross(&(corners[i + 1] - corners[0]))).sum::<Vector3<f64>>() * 0.5
        };
        // exact measure of the facet: a square has 4, a triangle at least 2, a segment at least 2
        let min = if dim == 2 && corners.len() == 4 { 4.0 } else { 2.0 };
        ensure!(area.norm() > min - 1e-9, "corners of face {:?} are not in cyclic order", f);
        ensure!(area.dot(&(corners[0] - center)) > 0.0, "face {:?} is oriented inwards", f);
        if dim == 2 {
            let n = corners.len();
            ensure!(edges.len() == n, "face {:?} has {} edges", f, edges.len());
            let ids = face_corners(f, 2);
            let mut found = BTreeSet::new();
            for e in edges {
                let ends = face_corners(e, 1);
                let i = ids.iter().position(|x| *x == ends[0]).ok_or_else(|| "edge without a corner".to_string())?;
                ensure!(ends[1] == ids[(i + 1) % n], "edge {:?} of face {:?} does not follow its orientation", e, f);
                found.insert(i);
                if e.len() == 3 {
                    ensure!((pos(e[1]) - (pos(ends[0]) + pos(ends[1])) / 2.0).norm() < 1e-12, "edge {:?} of face {:?}: middle node", e, f);
                }
            }
            ensure!(found.len() == n, "edges of face {:?} repeat: {:?}", f, edges);
        }
    }
    Ok(())
}

fn boundary_of<C>(c: &mut Case, g: &GMesh, conforming: bool) -> Res
where
    C: ElementConnectivity<f64> + FromIndices + Connectivity,
    C::FaceConnectivity: ConnectivityMut,
    DefaultAllocator: BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim> + Allocator<f64, C::GeometryDim>,
{
    let mesh = g.to_mesh::<C>();
    let local = facets(g.kind);
    let mut owners: BTreeMap<BTreeSet<usize>, Vec<usize>> = BTreeMap::new();
    for (i, cell) in g.cells.iter().enumerate() {
        for f in &local {
            owners.entry(f.iter().map(|k| cell[*k]).collect()).or_default().push(i);
        }
    }
    let shared = owners.values().filter(|o| o.len() > 1).count();
    let expected: BTreeMap<BTreeSet<usize>, usize> = owners.iter().filter(|(_, o)| o.len() == 1).map(|(f, o)| (f.clone(), o[0])).collect();
    c.nontrivial_if(shared > 0 && !expected.is_empty());
    c.class_if(owners.values().any(|o| o.len() > 2), "face of three cells");
    let found = mesh.find_boundary_faces();
    let mut seen = BTreeSet::new();
    for (face, cell, idx) in &found {
        let s = set(face.vertex_indices());
        let owner = expected.get(&s);
        ensure!(owner.is_some(), "face {:?} of cell {} is reported, it belongs to the cells {:?}", s, cell, owners.get(&s));
        ensure!(owner == Some(cell), "face {:?} is reported with cell {}, it belongs to cell {:?}", s, cell, owner);
        let of_cell = mesh.connectivity()[*cell].get_face_connectivity(*idx).ok_or_else(|| format!("cell {} has no face {}", cell, idx))?;
        ensure!(of_cell.vertex_indices() == face.vertex_indices(), "face {} of cell {} is {:?}, reported as {:?}", idx, cell, of_cell.vertex_indices(), face.vertex_indices());
        ensure!(seen.insert(s.clone()), "face {:?} is reported twice", s);
    }
    ensure!(seen.len() == expected.len(), "{} boundary faces are reported, there are {}: missing {:?}", seen.len(), expected.len(), expected.keys().find(|k| !seen.contains(*k)));
    let verts: BTreeSet<usize> = expected.keys().flatten().copied().collect();
    ensure_eq!(mesh.find_boundary_vertices(), verts.iter().copied().collect::<Vec<_>>());
    let cells: BTreeSet<usize> = expected.values().copied().collect();
    let mut got = mesh.find_boundary_cells();
    got.sort();
    ensure_eq!(got, cells.into_iter().collect::<Vec<_>>());

    // the surface mesh consists of the same faces
    let surface = mesh.extract_surface_mesh();
    let key = |p: &[f64]| -> Vec<u64> { p.iter().map(|x| x.to_bits()).collect() };
    // vertices at the same position are told apart by nothing but their use; meshes here have distinct used positions
    let mut pos: Vec<Vec<u64>> = surface.vertices().iter().map(|v| key(v.coords.as_slice())).collect();
    let geometry = |nodes: &[usize], at: &dyn Fn(usize) -> Vec<u64>| -> Vec<Vec<u64>> { nodes.iter().map(|i| at(*i)).collect() };
    let mut have: Vec<Vec<Vec<u64>>> = vec![];
    for f in surface.connectivity() {
        for i in f.vertex_indices() {
            ensure!(*i < pos.len(), "the surface mesh refers to vertex {}, it has {}", i, pos.len());
        }
        have.push(geometry(f.vertex_indices(), &|i| pos[i].clone()));
    }
    let mut want: Vec<Vec<Vec<u64>>> = found.iter().map(|(f, _, _)| geometry(f.vertex_indices(), &|i| key(&g.verts[i]))).collect();
    have.sort();
    want.sort();
    ensure!(have == want, "the faces of the surface mesh are not the boundary faces");
    let mut want_pos: Vec<Vec<u64>> = verts.iter().map(|i| key(&g.verts[*i])).collect();
    pos.sort();
    want_pos.sort();
    ensure!(pos == want_pos, "the surface mesh has {} vertices, the boundary {}", pos.len(), want_pos.len());
    if conforming && g.kind.gdim() == g.kind.rdim() {
        // the divergence theorem gives the volume
        let d = g.kind.gdim();
        let mut flux = 0.0;
        let mut size = 0.0;
        let mut edges: BTreeMap<(usize, usize), i32> = BTreeMap::new();
        for f in surface.connectivity() {
            let ids = face_corners(f.vertex_indices(), d - 1);
            let p: Vec<Vector3<f64>> = ids.iter().map(|i| v3(surface.vertices()[*i].coords.as_slice())).collect();
            let n = ids.len();
            if d == 2 {
                flux += (p[0].x * p[1].y - p[0].y * p[1].x) / 2.0;
                *edges.entry((ids[0], usize::MAX)).or_insert(0) += 1;
                *edges.entry((ids[1], usize::MAX)).or_insert(0) -= 1;
            } else {
                for i in 0..n {
                    let (a, b) = (ids[i], ids[(i + 1) % n]);
                    *edges.entry((a.min(b), a.max(b))).or_insert(0) += if a < b { 1 } else { -1 };
                }
                if n == 3 {
                    flux += p[0].dot(&p[1].cross(&p[2])) / 6.0;
                } else {
                    let g = 1.0 / 3f64.sqrt();
                    for (u, v) in [(-g, -g), (g, -g), (g, g), (-g, g)] {
                        let w = [(1.0 - u) * (1.0 - v), (1.0 + u) * (1.0 - v), (1.0 + u) * (1.0 + v), (1.0 - u) * (1.0 + v)];
                        let wu = [-(1.0 - v), 1.0 - v, 1.0 + v, -(1.0 + v)];
                        let wv = [-(1.0 - u), -(1.0 + u), 1.0 + u, 1.0 - u];
                        let at = |w: &[f64; 4]| (0..4).map(|i| p[i] * (w[i] / 4.0)).sum::<Vector3<f64>>();
                        flux += at(&w).dot(&at(&wu).cross(&at(&wv))) / 3.0;
                    }
                }
            }
            size += p.iter().map(|x| x.norm()).fold(0.0, f64::max).powi(d as i32);
        }
        ensure!(edges.values().all(|x| *x == 0), "the surface is not closed or not consistently oriented");
        let volume: f64 = (0..g.cells.len()).map(|i| g.cell_measure(i)).sum();
        ensure!((flux - volume).abs() <= 1e-10 * size, "volume enclosed by the surface mesh is {}, the cells have {}", flux, volume);
        ensure!(surface.find_boundary_faces().is_empty() || d == 2, "the surface mesh has a boundary");
    }
    Ok(())
}

fn boundary(c: &mut Case) -> Res {
    let (g, conforming) = gen(c, &FACED);
    note(c, &g);
    for_faced!(g.kind, C => boundary_of::<C>(c, &g, conforming))
}

fn keep_of<C>(c: &mut Case, g: &GMesh) -> Res
where
    C: ElementConnectivity<f64> + FromIndices + ConnectivityMut,
    DefaultAllocator: BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim> + Allocator<f64, C::GeometryDim>,
{
    let mesh = g.to_mesh::<C>();
    let n = g.cells.len();
    let k = c.int(0, n);
    let list = match c.int(0, 3) {
        0 => (0..n).collect(),
        1 => {
            let mut l = c.distinct(k, n);
            l.sort();
            l
        }
        _ => c.distinct(k, n),
    };
    c.note(|| format!("kept cells {:?}", list));
    let sub = mesh.keep_cells(&list);
    let used: BTreeSet<usize> = list.iter().flat_map(|i| &g.cells[*i]).copied().collect();
    c.nontrivial_if(!list.is_empty() && used.len() < g.verts.len());
    ensure!(sub.connectivity().len() == list.len(), "{} cells are kept, the new mesh has {}", list.len(), sub.connectivity().len());
    ensure!(sub.vertices().len() == used.len(), "{} vertices are used, the new mesh has {}", used.len(), sub.vertices().len());
    let mut map: BTreeMap<usize, usize> = BTreeMap::new();
    for (i, cell) in sub.connectivity().iter().enumerate() {
        let old = &g.cells[list[i]];
        ensure!(cell.vertex_indices().len() == old.len(), "cell {}: number of nodes", i);
        for (a, b) in cell.vertex_indices().iter().zip(old) {
            ensure!(*a < used.len(), "cell {} refers to vertex {} of {}", i, a, used.len());
            ensure!(*map.entry(*a).or_insert(*b) == *b, "cell {}: vertex {} stands for two old vertices", i, a);
        }
    }
    ensure!(map.len() == used.len(), "{} vertices of the new mesh are in use, expected {}", map.len(), used.len());
    ensure!(map.values().collect::<BTreeSet<_>>().len() == used.len(), "old vertices were duplicated");
    for (a, b) in &map {
        ensure!(sub.vertices()[*a].coords.as_slice() == g.verts[*b].as_slice(), "vertex {} (was {}) is at {:?} instead of {:?}", a, b, sub.vertices()[*a], g.verts[*b]);
    }
    Ok(())
}

fn keep(c: &mut Case) -> Res {
    let kinds: Vec<Kind> = ALL.iter().copied().filter(|k| !matches!(k, Kind::Seg1 | Kind::Seg2)).collect();
    let (g, _) = if c.chance(1, 10) {
        let k = *c.pick(&[Kind::Seg1, Kind::Seg2]);
        (soup(c, k), false)
    } else {
        gen(c, &kinds)
    };
    note(c, &g);
    match g.kind {
        Kind::Seg1 => keep_of::<Segment2d1Connectivity>(c, &g),
        Kind::Seg2 => keep_of::<Segment2d2Connectivity>(c, &g),
        Kind::Tri3d3 => keep_of::<Tri3d3Connectivity>(c, &g),
        k => for_volume_kind!(k, C => keep_of::<C>(c, &g)),
    }
}

/// Vertices with large numbers, among many unused ones
fn high_indices(c: &mut Case) -> Res {
    let (small, conforming) = gen(c, &FACED);
    if small.cells.is_empty() {
        discard!("no cells");
    }
    let g = spread(c, &small);
    c.note(|| format!("{:?} mesh, {} vertices, cells {:?}", g.kind, g.verts.len(), g.cells));
    for_faced!(g.kind, C => {
        boundary_of::<C>(c, &g, conforming)?;
        keep_of::<C>(c, &g)
    })
}

/// Meshes with hundreds of cells
fn huge(c: &mut Case) -> Res {
    c.boost = 2000;
    match c.int(0, 2) {
        0 => boundary(c),
        1 => boundary(c),
        _ => keep(c),
    }
}

fn main() {
    pbt::main(Property {
        id: "C18",
        rule: "some face is shared and some is not (boundary); some vertices are dropped and some kept (keep); huge: the same with meshes of up to a few thousand cells",
        assumptions: &["used vertices have distinct positions"],
        clauses: vec![clause("faces", 300_000, 3_000_000, faces), clause("boundary", 300_000, 4_000_000, boundary), clause("keep", 800_000, 8_000_000, keep), clause("high_indices", 2_000, 20_000, high_indices), clause("huge", 5000, 50000, huge)],
    })
}
