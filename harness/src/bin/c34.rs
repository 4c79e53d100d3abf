//! C34: cells of meshes, meshes as finite element spaces, edits of vertices.
use fenris::allocators::BiDimAllocator;
use fenris::connectivity::*;
use fenris::element::*;
use fenris::geometry::{BoundedGeometry, GeometryCollection};
use fenris::mesh::Mesh;
use fenris::nalgebra::allocator::Allocator;
use fenris::nalgebra::*;
use fenris::space::*;
use fenris::SmallDim;
use fenris_geometry::{Hexahedron, LineSegment2d, Quad2d, Tetrahedron, Triangle};
use pbt::elems::*;
use pbt::meshes::*;
use pbt::*;

// ---- cells

/// The geometry with these corners, in order
trait HasCorners {
    fn is(&self, corners: &[Vec<f64>]) -> bool;
}

fn points<D: DimName, const N: usize>(corners: &[Vec<f64>]) -> [OPoint<f64, D>; N]
where
    DefaultAllocator: Allocator<f64, D>,
{
    std::array::from_fn(|i| opoint(&corners[i]))
}

impl HasCorners for LineSegment2d<f64> {
    fn is(&self, c: &[Vec<f64>]) -> bool {
        c.len() == 2 && [*self.start(), *self.end()] == points::<U2, 2>(c)
    }
}
impl<D: DimName> HasCorners for Triangle<f64, D>
where
    DefaultAllocator: Allocator<f64, D>,
{
    fn is(&self, c: &[Vec<f64>]) -> bool {
        c.len() == 3 && self.0 == points::<D, 3>(c)
    }
}
impl HasCorners for Quad2d<f64> {
    fn is(&self, c: &[Vec<f64>]) -> bool {
        c.len() == 4 && self.0 == points::<U2, 4>(c)
    }
}
impl HasCorners for Tetrahedron<f64> {
    fn is(&self, c: &[Vec<f64>]) -> bool {
        c.len() == 4 && *self == Tetrahedron::from_vertices(points(c))
    }
}
impl HasCorners for Hexahedron<f64> {
    fn is(&self, c: &[Vec<f64>]) -> bool {
        c.len() == 8 && *self == Hexahedron::from_vertices(points(c))
    }
}

macro_rules! for_cell_kind {
    ($kind:expr, $C:ident => $body:expr) => {
        match $kind {
            Kind::Seg2 => { type $C = Segment2d2Connectivity; $body }
            other => for_boxed_kind!(other, $C => $body),
        }
    };
}
/// Kinds whose cells have a bounding box
macro_rules! for_boxed_kind {
    ($kind:expr, $C:ident => $body:expr) => {
        match $kind {
            Kind::Tri3d3 => { type $C = Tri3d3Connectivity; $body }
            other => for_volume_kind!(other, $C => $body),
        }
    };
}

/// Distinct vertices, cells that may share anything, corners not in a valid position
fn soup(c: &mut Case, kind: Kind) -> GMesh {
    let nn = kind.ref_nodes().len();
    let extra = c.int(0, 5);
    let d = kind.gdim();
    let mut verts = vec![];
    for i in 0..nn + extra {
        let mut v: Vec<f64> = c.vec(d, |c| c.grid(60, 8));
        v[0] += i as f64 * 100.0;
        verts.push(v);
    }
    let n = c.int(0, 5);
    let cells = c.vec(n, |c| c.distinct(nn, nn + extra));
    GMesh { kind, verts, cells }
}

fn cells_of<C>(c: &mut Case, g: &GMesh) -> Res
where
    C: CellConnectivity<f64, <C as ElementConnectivity<f64>>::GeometryDim> + ElementConnectivity<f64> + FromIndices,
    C::Cell: HasCorners,
    DefaultAllocator: BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim>,
{
    let mesh = g.to_mesh::<C>();
    let n = g.cells.len();
    ensure_eq!(mesh.num_geometries(), n);
    ensure_eq!(mesh.connectivity().len(), n);
    for (v, w) in mesh.vertices().iter().zip(&g.verts) {
        ensure!(v.coords.as_slice() == &w[..], "vertex {:?} is presented as {:?}", w, v);
    }
    let iterated: Vec<C::Cell> = mesh.cell_iter().collect();
    ensure_eq!(iterated.len(), n);
    for i in 0..n {
        let corners = g.corners(i);
        let cell = mesh.get_cell(i).ok_or_else(|| format!("cell {} is missing", i))?;
        ensure!(cell.is(&corners), "get_cell({}) does not have the corners {:?}", i, corners);
        let cell = mesh.get_geometry(i).ok_or_else(|| format!("geometry {} is missing", i))?;
        ensure!(cell.is(&corners), "get_geometry({}) does not have the corners {:?}", i, corners);
        ensure!(iterated[i].is(&corners), "cell {} of cell_iter does not have the corners {:?}", i, corners);
        ensure_eq!(mesh.connectivity()[i].vertex_indices(), &g.cells[i][..]);
        // faces by callback, as by index
        let conn = &mesh.connectivity()[i];
        let mut faces = vec![];
        conn.for_each_face(|f| faces.push(f.vertex_indices().to_vec()));
        let by_index: Vec<Vec<usize>> = (0..conn.num_faces()).map(|k| conn.get_face_connectivity(k).unwrap().vertex_indices().to_vec()).collect();
        ensure_eq!(faces, by_index);
    }
    let far = c.int(0, 3);
    ensure!(mesh.get_cell(n + far).is_none(), "cell {} exists", n + far);
    ensure!(mesh.get_geometry(n + far).is_none(), "geometry {} exists", n + far);
    Ok(())
}

/// A node that does not exist: no cell, no element, whatever is asked for
fn dangling_of<C>(c: &mut Case, g: &GMesh) -> Res
where
    C: CellConnectivity<f64, <C as ElementConnectivity<f64>>::GeometryDim> + ElementConnectivity<f64> + FromIndices,
    C::Cell: HasCorners,
    DefaultAllocator: BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim>,
{
    let mut g = g.clone();
    if g.cells.is_empty() {
        discard!("no cells");
    }
    let bad = c.int(0, g.cells.len() - 1);
    let local = c.int(0, g.cells[bad].len() - 1);
    g.cells[bad][local] = g.verts.len() + c.int(0, 2);
    let mesh = g.to_mesh::<C>();
    let corner = local < g.kind.num_corners();
    c.note(|| format!("cell {} refers to node {} of {}", bad, g.cells[bad][local], g.verts.len()));
    c.nontrivial();
    c.class_if(corner, "corner");
    for i in 0..g.cells.len() {
        let got = catch(|| mesh.get_cell(i));
        let el = catch(|| mesh.connectivity()[i].element(mesh.vertices()));
        if i != bad {
            ensure!(matches!(&got, Ok(Some(cell)) if cell.is(&g.corners(i))), "cell {} is affected by cell {}", i, bad);
            ensure!(matches!(&el, Ok(Some(_))), "element {} is affected by cell {}", i, bad);
        } else {
            ensure!(!corner || !matches!(&got, Ok(Some(_))), "a cell with a missing corner is presented");
            ensure!(!matches!(&el, Ok(Some(_))), "an element with a missing node is presented");
            let geometry = catch(|| mesh.get_geometry(i));
            ensure!(!corner || !matches!(&geometry, Ok(Some(_))), "a geometry with a missing corner is presented");
        }
    }
    let all = catch(|| mesh.cell_iter().count());
    ensure!(!corner || all.is_err(), "all {:?} cells are presented, one has a missing corner", all.ok());
    Ok(())
}

const CELL_KINDS: [Kind; 12] = [Kind::Seg2, Kind::Tri3, Kind::Tri6, Kind::Tri3d3, Kind::Quad4, Kind::Quad9, Kind::Tet4, Kind::Tet10, Kind::Tet20, Kind::Hex8, Kind::Hex20, Kind::Hex27];

fn cells(c: &mut Case) -> Res {
    let kind = *c.pick(&CELL_KINDS);
    let g = if c.bool() { soup(c, kind) } else { gen_mesh(c, kind, &MeshOpts { max_cells: if kind.rdim() == 3 { 3 } else { 6 }, empty: true, ..Default::default() }) };
    c.note(|| format!("{:?}, {} vertices, cells {:?}", kind, g.verts.len(), g.cells));
    c.nontrivial_if(g.cells.len() > 1);
    for_cell_kind!(kind, C => cells_of::<C>(c, &g))
}

fn dangling(c: &mut Case) -> Res {
    let kind = *c.pick(&CELL_KINDS);
    let g = soup(c, kind);
    c.note(|| format!("{:?}, cells {:?}", kind, g.cells));
    for_cell_kind!(kind, C => dangling_of::<C>(c, &g))
}

/// Types of connectivities without elements and conversions between types
fn connectivities(c: &mut Case) -> Res {
    macro_rules! indices {
        ($($T:ident $n:expr, $faces:expr;)*) => {{
            $({
                let nodes = c.vec($n, |c| c.int(0, 99));
                let more = c.vec($n, |c| c.int(0, 99));
                let conn = $T(nodes.clone().try_into().unwrap());
                ensure!(conn.vertex_indices() == &nodes[..], "{}: {:?} has the nodes {:?}", stringify!($T), nodes, conn.vertex_indices());
                let mut other = conn.clone();
                let at = c.int(0, $n - 1);
                other.vertex_indices_mut()[at] = more[at] + 100;
                let mut want = nodes.clone();
                want[at] = more[at] + 100;
                ensure!(other.vertex_indices() == &want[..], "{}: node {} changed: {:?}", stringify!($T), at, other.vertex_indices());
                ensure!(conn.vertex_indices() == &nodes[..], "{}: the original changed", stringify!($T));
                ensure!(other != conn && conn == conn.clone(), "{}: comparison", stringify!($T));
                other.vertex_indices_mut().copy_from_slice(&more);
                ensure!(other.vertex_indices() == &more[..], "{}: nodes are not replaced", stringify!($T));
                ensure!(conn.num_faces() == $faces, "{}: {} faces", stringify!($T), conn.num_faces());
                for k in 0..$faces + 3 {
                    let f = conn.get_face_connectivity(k);
                    ensure!(f.is_some() == (k < $faces), "{}: face {}", stringify!($T), k);
                    if let Some(f) = f {
                        ensure!(f.vertex_indices().iter().all(|v| nodes.contains(v)), "{}: face {} has the nodes {:?}, the cell has {:?}", stringify!($T), k, f.vertex_indices(), nodes);
                    }
                }
            })*
        }};
    }
    indices! {
        Segment2d1Connectivity 2, 0; Segment2d2Connectivity 2, 0; Segment3d2Connectivity 3, 0; Segment2d3Connectivity 2, 0; Segment3d3Connectivity 3, 0;
        Tri3d2Connectivity 3, 3; Tri6d2Connectivity 6, 3; Tri3d3Connectivity 3, 3; Tri6d3Connectivity 6, 3;
        Quad4d2Connectivity 4, 4; Quad9d2Connectivity 9, 4; Quad4d3Connectivity 4, 4; Quad8d3Connectivity 8, 4; Quad9d3Connectivity 9, 4;
        Tet4Connectivity 4, 4; Tet10Connectivity 10, 4; Tet20Connectivity 20, 0; Hex8Connectivity 8, 6; Hex20Connectivity 20, 6; Hex27Connectivity 27, 6;
    }
    macro_rules! serde {
        ($($T:ident $n:expr;)*) => {{
            $({
                let nodes = c.vec($n, |c| c.below(u64::MAX) as usize);
                let conn = $T(nodes.clone().try_into().unwrap());
                let back: $T = serde_json::from_str(&serde_json::to_string(&conn).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
                ensure!(back == conn, "{}: {:?} is read as {:?}", stringify!($T), conn, back);
            })*
        }};
    }
    serde! { Segment2d2Connectivity 2; Segment2d3Connectivity 2; Segment3d3Connectivity 3; Tri3d2Connectivity 3; Tri6d2Connectivity 6; Tri3d3Connectivity 3;
        Quad4d2Connectivity 4; Quad9d2Connectivity 9; Quad8d3Connectivity 8; Tet4Connectivity 4; Tet10Connectivity 10; Tet20Connectivity 20; Hex8Connectivity 8; }
    macro_rules! corners {
        ($($T:ident $n:expr => $L:ident $m:expr;)*) => {{
            $({
                let nodes = c.vec($n, |c| c.int(0, 99));
                let conn = $T(nodes.clone().try_into().unwrap());
                let low = $L::from(&conn);
                ensure!(low.vertex_indices() == &nodes[..$m], "{} to {}: {:?} has the corners {:?}", stringify!($T), stringify!($L), nodes, low);
            })*
        }};
    }
    corners! { Quad9d2Connectivity 9 => Quad4d2Connectivity 4; Tri6d2Connectivity 6 => Tri3d2Connectivity 3; Tet10Connectivity 10 => Tet4Connectivity 4; Tet20Connectivity 20 => Tet4Connectivity 4; }
    // the surface of a mesh of quadratic tetrahedra: corners of a triangle of six nodes
    let verts: Vec<Point3<f64>> = c.vec(8, |c| Point3::new(c.grid(40, 4), c.grid(40, 4), c.grid(40, 4)));
    let nodes = c.vec(6, |c| c.int(0, 9));
    let conn = Tri6d3Connectivity(nodes.clone().try_into().unwrap());
    let cell: Result<Option<Triangle<f64, U3>>, _> = catch(|| conn.cell(&verts));
    if nodes[..3].iter().any(|i| *i >= 8) {
        ensure!(!matches!(cell, Ok(Some(_))), "a triangle with a missing corner is presented");
    } else {
        let corners = [verts[nodes[0]], verts[nodes[1]], verts[nodes[2]]];
        ensure!(matches!(&cell, Ok(Some(t)) if t.0 == corners), "the cell of {:?} is {:?}", conn, cell.ok());
    }
    macro_rules! deref {
        ($($T:ident $n:expr;)*) => {{ $({
            let nodes: [usize; $n] = std::array::from_fn(|_| c.int(0, 99));
            let conn = $T(nodes);
            ensure!(conn[..] == nodes[..], "{}: dereferenced to {:?}", stringify!($T), &conn[..]);
        })* }};
    }
    deref! { Quad4d2Connectivity 4; Quad9d2Connectivity 9; Tri3d2Connectivity 3; Tri6d2Connectivity 6; Tri3d3Connectivity 3; Tri6d3Connectivity 6; }
    macro_rules! deref_mut {
        ($($T:ident $n:expr;)*) => {{ $({
            let mut conn = $T(std::array::from_fn(|_| c.int(0, 99)));
            let at = c.int(0, $n - 1);
            let mut want = conn.0;
            want[at] = 100;
            conn[at] = 100;
            ensure!(conn.0 == want, "{}: {:?} after setting {}", stringify!($T), conn, at);
        })* }};
    }
    deref_mut! { Quad4d2Connectivity 4; Tri3d2Connectivity 3; Tri3d3Connectivity 3; }
    ensure!(().num_faces() == 0 && ().get_face_connectivity(c.int(0, 3)).is_none() && ().vertex_indices().is_empty(), "no connectivity");
    c.nontrivial();
    Ok(())
}

// ---- meshes as spaces

fn vec_of<D: DimName>(p: &OPoint<f64, D>) -> Vec<f64>
where
    DefaultAllocator: Allocator<f64, D>,
{
    p.iter().copied().collect()
}

/// Everything a space says about an element, compared with the element itself
fn same_element<S, E>(label: &str, space: &S, index: usize, e: &E, nodes: &[usize], xi: &[f64]) -> Res
where
    S: FiniteElementSpace<f64>,
    E: FiniteElement<f64, GeometryDim = S::GeometryDim, ReferenceDim = S::ReferenceDim>,
    DefaultAllocator: BiDimAllocator<f64, S::GeometryDim, S::ReferenceDim>,
{
    let n = nodes.len();
    ensure!(space.element_node_count(index) == n, "{}: element {} has {} nodes", label, index, space.element_node_count(index));
    let mut got = vec![usize::MAX; n];
    space.populate_element_nodes(&mut got, index);
    ensure!(got == nodes, "{}: element {} has the nodes {:?}, expected {:?}", label, index, got, nodes);
    let x = opoint::<S::ReferenceDim>(xi);
    let (mut a, mut b) = (vec![f64::NAN; n], vec![f64::NAN; n]);
    space.populate_element_basis(index, &mut a, &x);
    e.populate_basis(&mut b, &x);
    ensure!(a == b, "{}: basis of element {}: {:?}, expected {:?}", label, index, a, b);
    let (mut a, mut b) = (OMatrix::<f64, S::ReferenceDim, Dyn>::repeat(n, f64::NAN), OMatrix::<f64, S::ReferenceDim, Dyn>::repeat(n, f64::NAN));
    space.populate_element_gradients(index, MatrixViewMut::from(&mut a), &x);
    e.populate_basis_gradients(MatrixViewMut::from(&mut b), &x);
    ensure!(a == b, "{}: gradients of element {}: {}expected {}", label, index, a, b);
    let (a, b) = (space.element_reference_jacobian(index, &x), e.reference_jacobian(&x));
    ensure!(a == b, "{}: Jacobian of element {}: {}expected {}", label, index, a, b);
    let (a, b) = (space.map_element_reference_coords(index, &x), e.map_reference_coords(&x));
    ensure!(a == b, "{}: element {} maps {:?} to {:?}, expected {:?}", label, index, xi, a, b);
    let (a, b) = (space.diameter(index), e.diameter());
    ensure!(a == b, "{}: element {} has the diameter {}, expected {}", label, index, a, b);
    Ok(())
}

fn space_of<C>(c: &mut Case, g: &GMesh, own: bool) -> Res
where
    C: ElementConnectivity<f64> + FromIndices,
    DefaultAllocator: BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim>,
{
    let mesh = g.to_mesh::<C>();
    ensure_eq!(FiniteElementConnectivity::num_elements(&mesh), g.cells.len());
    ensure_eq!(FiniteElementConnectivity::num_nodes(&mesh), g.verts.len());
    let queries = c.int(1, 6);
    for _ in 0..queries {
        if g.cells.is_empty() {
            break;
        }
        let i = c.int(0, g.cells.len() - 1);
        let xi = if c.chance(1, 4) { g.kind.any_point(c, 2.0) } else { g.kind.ref_point(c) };
        let e = C::from_indices(&g.cells[i]).element(mesh.vertices()).ok_or("no element")?;
        same_element("mesh", &mesh, i, &e, &g.cells[i], &xi)?;
        let view = ElementInSpace::from_space_and_element_index(&mesh, i);
        let n = g.cells[i].len();
        ensure_eq!(ReferenceFiniteElement::num_nodes(&view), n);
        let x = opoint::<C::ReferenceDim>(&xi);
        let (mut a, mut b) = (vec![f64::NAN; n], vec![f64::NAN; n]);
        view.populate_basis(&mut a, &x);
        e.populate_basis(&mut b, &x);
        ensure!(a == b, "element in space: basis {:?}, expected {:?}", a, b);
        let (mut a, mut b) = (OMatrix::<f64, C::ReferenceDim, Dyn>::repeat(n, f64::NAN), OMatrix::<f64, C::ReferenceDim, Dyn>::repeat(n, f64::NAN));
        view.populate_basis_gradients(MatrixViewMut::from(&mut a), &x);
        e.populate_basis_gradients(MatrixViewMut::from(&mut b), &x);
        ensure!(a == b, "element in space: gradients {}expected {}", a, b);
        ensure!(view.reference_jacobian(&x) == e.reference_jacobian(&x), "element in space: Jacobian");
        ensure!(view.map_reference_coords(&x) == e.map_reference_coords(&x), "element in space: map");
        ensure!(view.diameter() == e.diameter(), "element in space: diameter");
        if own {
            // against the harness's own description
            let corners = g.corners(i);
            let size = max_abs(&corners) * (1.0 + xi.iter().fold(0.0f64, |m, x| m.max(x.abs()))).powi(g.kind.rdim() as i32);
            let got = vec_of(&mesh.map_element_reference_coords(i, &x));
            ensure!(dist(&got, &g.kind.map(&corners, &xi)) <= 1e-12 * size, "element {} maps {:?} to {:?}, expected {:?}", i, xi, got, g.kind.map(&corners, &xi));
            ensure!((mesh.diameter(i) - diameter(&corners)).abs() <= 1e-12 * max_abs(&corners), "element {} has diameter {}", i, mesh.diameter(i));
        }
    }
    // what does not fit is refused
    let n = g.cells.len();
    let far = n + c.int(0, 2);
    let x = opoint::<C::ReferenceDim>(&g.kind.ref_point(c));
    ensure!(catch(|| mesh.element_node_count(far)).is_err(), "node count of element {} of {}", far, n);
    ensure!(catch(|| mesh.map_element_reference_coords(far, &x)).is_err(), "element {} of {} is mapped", far, n);
    ensure!(catch(|| mesh.element_reference_jacobian(far, &x)).is_err(), "element {} of {} has a Jacobian", far, n);
    ensure!(catch(|| mesh.diameter(far)).is_err(), "element {} of {} has a diameter", far, n);
    if n > 0 {
        let i = c.int(0, n - 1);
        let nn = g.cells[i].len();
        let wrong = if c.bool() { nn - 1 } else { nn + 1 };
        ensure!(catch(|| mesh.populate_element_nodes(&mut vec![0; wrong], i)).is_err(), "{} nodes of {} are populated", wrong, nn);
        ensure!(catch(|| mesh.populate_element_basis(i, &mut vec![0.0; wrong], &x)).is_err(), "{} basis values of {} are populated", wrong, nn);
        let mut m = OMatrix::<f64, C::ReferenceDim, Dyn>::zeros(wrong);
        ensure!(catch(|| mesh.populate_element_gradients(i, MatrixViewMut::from(&mut m), &x)).is_err(), "{} gradients of {} are populated", wrong, nn);
    }
    Ok(())
}

fn space(c: &mut Case) -> Res {
    let kind = *c.pick(&ALL);
    let sane = c.chance(3, 4);
    let g = if sane { gen_mesh(c, kind, &MeshOpts { max_cells: if kind.rdim() == 3 { 3 } else { 6 }, empty: true, ..Default::default() }) } else { soup(c, kind) };
    c.note(|| format!("{:?}, vertices {:?}, cells {:?}", kind, g.verts, g.cells));
    c.nontrivial_if(g.cells.len() > 1);
    for_kind!(kind, C => space_of::<C>(c, &g, sane))
}

fn indexed_of<C>(c: &mut Case, g: &GMesh) -> Res
where
    C: ElementConnectivity<f64> + FromIndices + Clone,
    C::Element: ClosestPointInElement<f64> + BoundsForElement<f64>,
    DefaultAllocator: BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim>,
    Mesh<f64, C::GeometryDim, C>: FiniteElementSpace<f64, GeometryDim = C::GeometryDim, ReferenceDim = C::ReferenceDim> + ClosestPointInElementInSpace<f64> + BoundsForElementInSpace<f64>,
{
    let mesh = g.to_mesh::<C>();
    let indexed = SpatiallyIndexed::<f64, _>::from_space(mesh.clone());
    let n = g.cells.len();
    ensure_eq!(FiniteElementConnectivity::num_elements(&indexed), n);
    ensure_eq!(FiniteElementConnectivity::num_nodes(&indexed), g.verts.len());
    ensure_eq!(FiniteElementConnectivity::num_elements(indexed.space()), n);
    let all = mesh.bounds_for_all_elements();
    let all_indexed = indexed.bounds_for_all_elements();
    ensure_eq!(all.len(), n);
    ensure_eq!(all_indexed.len(), n);
    let mut into = vec![fenris_geometry::AxisAlignedBoundingBox::new(OPoint::origin(), OPoint::origin()); n];
    mesh.populate_bounds_for_all_elements(&mut into);
    for i in 0..n {
        let corners = g.corners(i);
        for b in [&all[i], &all_indexed[i], &into[i], &mesh.bounds_for_element(i), &indexed.bounds_for_element(i)] {
            for k in 0..g.dim() {
                let (lo, hi) = corners.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), p| (a.min(p[k]), b.max(p[k])));
                ensure!(b.min()[k] == lo && b.max()[k] == hi, "element {} with the corners {:?} has the bounds {:?} to {:?}", i, corners, b.min(), b.max());
            }
        }
    }
    let mut wrong = into.clone();
    if n > 0 && c.bool() {
        wrong.pop();
    } else {
        wrong.push(fenris_geometry::AxisAlignedBoundingBox::new(OPoint::origin(), OPoint::origin()));
    }
    ensure!(catch(|| mesh.populate_bounds_for_all_elements(&mut wrong)).is_err(), "{} bounds of {} are populated", wrong.len(), n);
    let queries = c.int(1, 5);
    for _ in 0..queries {
        if n == 0 {
            break;
        }
        let i = c.int(0, n - 1);
        let xi = g.kind.ref_point(c);
        let e = C::from_indices(&g.cells[i]).element(mesh.vertices()).ok_or("no element")?;
        same_element("indexed", &indexed, i, &e, &g.cells[i], &xi)?;
        let base = c.pick(&g.verts).clone();
        let p: Vec<f64> = base.iter().map(|x| x + c.coord(1.0)).collect();
        let p = opoint::<C::GeometryDim>(&p);
        let want = e.closest_point(&p);
        for (label, got) in [("mesh", mesh.closest_point_in_element(i, &p)), ("indexed", indexed.closest_point_in_element(i, &p))] {
            ensure!(std::mem::discriminant(&got) == std::mem::discriminant(&want) && got.point() == want.point(), "{}: closest point of element {} to {:?}: {:?}, expected {:?}", label, i, p, got, want);
        }
    }
    Ok(())
}

fn indexed(c: &mut Case) -> Res {
    let kind = *c.pick(&[Kind::Tri3, Kind::Tri3d3, Kind::Tet4]);
    let g = gen_mesh(c, kind, &MeshOpts { max_cells: 4, empty: true, ..Default::default() });
    c.note(|| format!("{:?}, vertices {:?}, cells {:?}", kind, g.verts, g.cells));
    c.nontrivial_if(g.cells.len() > 1);
    match kind {
        Kind::Tri3 => indexed_of::<Tri3d2Connectivity>(c, &g),
        Kind::Tri3d3 => indexed_of::<Tri3d3Connectivity>(c, &g),
        _ => indexed_of::<Tet4Connectivity>(c, &g),
    }
}

// ---- edits

fn is_model<C>(mesh: &Mesh<f64, C::GeometryDim, C>, g: &GMesh) -> Res
where
    C: ElementConnectivity<f64>,
    DefaultAllocator: BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim>,
{
    let now = from_mesh(g.kind, mesh);
    ensure!(now.cells == g.cells, "the cells are {:?}, expected {:?}", now.cells, g.cells);
    ensure!(now.verts == g.verts, "the vertices are {:?}, expected {:?}", now.verts, g.verts);
    Ok(())
}

fn history_of<C>(c: &mut Case, start: &GMesh) -> Res
where
    C: ElementConnectivity<f64> + FromIndices + PartialEq + Clone + serde::Serialize + for<'a> serde::Deserialize<'a>,
    C::GeometryDim: SmallDim,
    DefaultAllocator: BiDimAllocator<f64, C::GeometryDim, C::ReferenceDim>,
    <DefaultAllocator as Allocator<f64, C::GeometryDim>>::Buffer: serde::Serialize + for<'a> serde::Deserialize<'a>,
{
    let mut g = start.clone();
    let mut mesh = g.to_mesh::<C>();
    let d = g.dim();
    let steps = c.int(1, 8);
    for _ in 0..steps {
        let op = c.int(0, 6);
        // of any size: adding rounds in one way only
        let unit = if c.chance(1, 4) { c.tiny() } else { c.value_unit() };
        let t: Vec<f64> = c.vec(d, |c| unit * c.grid(32, 8));
        let before = mesh.clone();
        ensure!(before == mesh, "a copy differs");
        let v = OVector::<f64, C::GeometryDim>::from_column_slice(&t);
        c.note(|| format!("step {} with {:?}", op, t));
        match op {
            0 => {
                mesh.translate(&v);
                g.verts.iter_mut().for_each(|p| (0..d).for_each(|k| p[k] += t[k]));
            }
            1 => {
                mesh = mesh.translated(&v);
                g.verts.iter_mut().for_each(|p| (0..d).for_each(|k| p[k] += t[k]));
            }
            2 => {
                // one at a time, in order
                let mut seen = vec![];
                mesh.transform_vertices(|p| {
                    seen.push(vec_of(p));
                    let s = seen.len() as f64;
                    for k in 0..d {
                        p[k] = t[k] * s - p[k];
                    }
                });
                ensure!(seen == g.verts, "the transformation was given {:?}, the vertices are {:?}", seen, g.verts);
                for (i, p) in g.verts.iter_mut().enumerate() {
                    (0..d).for_each(|k| p[k] = t[k] * (i + 1) as f64 - p[k]);
                }
            }
            3 => {
                let mut calls = 0;
                let mut seen = vec![];
                mesh.transform_all_vertices(|all| {
                    calls += 1;
                    seen = all.iter().map(vec_of).collect();
                    all.reverse();
                });
                ensure!(calls == 1 && seen == g.verts, "the transformation was called {} times with {:?}, the vertices are {:?}", calls, seen, g.verts);
                g.verts.reverse();
            }
            4 => {
                if !g.verts.is_empty() {
                    let i = c.int(0, g.verts.len() - 1);
                    mesh.vertices_mut()[i] = OPoint::from(v.clone());
                    let changed = g.verts[i] != t;
                    ensure!((mesh != before) == changed, "one vertex changes: {}, but the mesh differs: {}", changed, mesh != before);
                    g.verts[i] = t.clone();
                }
            }
            5 => {
                let text = serde_json::to_value(&mesh).map_err(|e| e.to_string())?;
                mesh = serde_json::from_value(text).map_err(|e| e.to_string())?;
                ensure!(mesh == before, "the mesh that is read differs from the one that was written");
            }
            _ => {
                // changes of a copy do not matter
                let mut copy = mesh.clone();
                copy.translate(&OVector::<f64, C::GeometryDim>::repeat(1.0));
                copy.transform_all_vertices(|all| all.reverse());
            }
        }
        // the value before the step is a copy of its own
        if op != 4 {
            ensure!(before.connectivity() == mesh.connectivity(), "cells changed");
        }
        is_model(&mesh, &g)?;
    }
    // another cell, another mesh
    if !g.cells.is_empty() {
        let i = c.int(0, g.cells.len() - 1);
        let k = c.int(0, g.cells[i].len() - 1);
        g.cells[i][k] += 1;
        ensure!(g.to_mesh::<C>() != mesh, "meshes with different cells are equal");
        g.cells[i][k] -= 1;
        g.cells.pop();
        ensure!(g.to_mesh::<C>() != mesh, "meshes with different numbers of cells are equal");
    }
    Ok(())
}

fn history(c: &mut Case) -> Res {
    const KINDS: [Kind; 9] = [Kind::Seg2, Kind::Tri3, Kind::Tri6, Kind::Tri3d3, Kind::Quad4, Kind::Quad9, Kind::Tet4, Kind::Tet10, Kind::Hex8];
    let kind = *c.pick(&KINDS);
    let mut g = soup(c, kind);
    if c.chance(1, 10) {
        g = GMesh { kind, verts: vec![], cells: vec![] };
    }
    c.note(|| format!("{:?}, {} vertices, cells {:?}", kind, g.verts.len(), g.cells));
    c.nontrivial_if(g.cells.len() > 0);
    match kind {
        Kind::Seg2 => history_of::<Segment2d2Connectivity>(c, &g),
        Kind::Tri3 => history_of::<Tri3d2Connectivity>(c, &g),
        Kind::Tri6 => history_of::<Tri6d2Connectivity>(c, &g),
        Kind::Tri3d3 => history_of::<Tri3d3Connectivity>(c, &g),
        Kind::Quad4 => history_of::<Quad4d2Connectivity>(c, &g),
        Kind::Quad9 => history_of::<Quad9d2Connectivity>(c, &g),
        Kind::Tet4 => history_of::<Tet4Connectivity>(c, &g),
        Kind::Tet10 => history_of::<Tet10Connectivity>(c, &g),
        _ => history_of::<Hex8Connectivity>(c, &g),
    }
}

/// The smallest box around all cells, and only the cells
fn bounds(c: &mut Case) -> Res {
    let kind = *c.pick(&CELL_KINDS[1..]);
    let mut g = if c.bool() { soup(c, kind) } else { gen_mesh(c, kind, &MeshOpts { max_cells: if kind.rdim() == 3 { 3 } else { 6 }, ..Default::default() }) };
    if g.cells.is_empty() {
        discard!("no cells");
    }
    if c.bool() {
        // a vertex that belongs to no cell, far away
        let far = c.vec(g.dim(), |c| c.sint(-9, 9) as f64 * 1000.0);
        g.verts.push(far);
    }
    c.note(|| format!("{:?}, vertices {:?}, cells {:?}", kind, g.verts, g.cells));
    c.nontrivial_if(g.cells.len() > 1);
    let corners: Vec<Vec<f64>> = (0..g.cells.len()).flat_map(|i| g.corners(i)).collect();
    for_boxed_kind!(kind, C => {
        let mesh = g.to_mesh::<C>();
        let b = mesh.bounding_box();
        for k in 0..g.dim() {
            let (lo, hi) = corners.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), p| (a.min(p[k]), b.max(p[k])));
            ensure!(b.min()[k] == lo && b.max()[k] == hi, "direction {}: the bounding box extends from {} to {}, the cells from {} to {}", k, b.min()[k], b.max()[k], lo, hi);
        }
    });
    Ok(())
}

/// Meshes with hundreds of cells
fn huge(c: &mut Case) -> Res {
    c.boost = 500;
    match c.int(0, 5) {
        0 => cells(c),
        1 => dangling(c),
        2 => space(c),
        3 => indexed(c),
        4 => history(c),
        _ => bounds(c),
    }
}

fn main() {
    pbt::main(Property {
        id: "C34",
        rule: "more than one cell (cells, space, indexed, bounds); a cell that refers to a missing node (dangling); at least one cell (history); huge: the same with meshes of up to a few thousand cells",
        assumptions: &["histories use vertices on a dyadic grid, so that sums are exact", "a missing node may be reported as None or as a panic"],
        clauses: vec![
            clause("cells", 1_000_000, 10_000_000, cells),
            clause("dangling", 850_000, 8_500_000, dangling),
            clause("connectivities", 850_000, 8_500_000, connectivities),
            clause("space", 600_000, 10_000_000, space),
            clause("indexed", 650_000, 6_500_000, indexed),
            clause("history", 1_500_000, 15_000_000, history),
            clause("bounds", 820_000, 10_000_000, bounds),
            clause("huge", 6000, 60000, huge),
        ],
    })
}
