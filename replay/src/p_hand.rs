//! The twelve directed-edge handles of a tetrahedron, exhaustively; gluing through the neighbour records.
use crate::ctx::Ctx;
use gpf::triangle::{enext, eprev, tetrahedralize, Tet, TetMesh, TriFace};

macro_rules! need {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
type Q = [usize; 4];
fn names(m: &TetMesh, f: &TriFace) -> Q {
    [m.org(f), m.dest(f), m.apex(f), m.oppo(f)]
}
fn even(q: Q) -> bool {
    let mut inv = 0;
    for i in 0..4 {
        for j in 0..i {
            inv += (q[j] > q[i]) as usize;
        }
    }
    inv % 2 == 0
}
fn mesh(tets: Vec<Tet>) -> TetMesh<'static> {
    TetMesh { points: &[], n_points: 100, tets, p2t: vec![] }
}
fn tet(d: Q) -> Tet {
    let mut t = Tet::default();
    t.data = d;
    t
}

fn moves() -> Result<(), String> {
    let m = mesh(vec![tet([0, 1, 2, 3])]);
    let all: Vec<Q> = (0..12).map(|v| names(&m, &TriFace::new(0, v))).collect();
    for v in 0..12 {
        let [o, d, a, p] = all[v];
        let mut s = all[v];
        s.sort();
        need!(s == [0, 1, 2, 3] && (0..v).all(|w| all[w] != all[v]), "handle {v} names {:?}", all[v]);
        need!(even(all[v]) == even(all[0]), "handle {v} names {:?}, an odd permutation of handle 0", all[v]);
        let go = |f: &dyn Fn(&mut TriFace)| {
            let mut t = TriFace::new(0, v);
            f(&mut t);
            (t.tet, t.ver)
        };
        let chk = |what: &str, t: (usize, usize), want: Q| -> Result<(), String> {
            need!(t.0 == 0 && t.1 < 12 && all[t.1] == want, "{what} of handle {v} {:?} is handle {} {:?}, expected {want:?}", all[v], t.1, all.get(t.1));
            Ok(())
        };
        chk("enext_self", go(&|t| t.enext_self()), [d, a, o, p])?;
        chk("eprev_self", go(&|t| t.eprev_self()), [a, o, d, p])?;
        chk("esym_self", go(&|t| t.esym_self()), [d, o, p, a])?;
        chk("enext_esym_self", go(&|t| t.enext_esym_self()), [a, d, p, o])?;
        chk("eprev_esym_self", go(&|t| t.eprev_esym_self()), [o, a, p, d])?;
        let mut t2 = TriFace::default();
        enext(&TriFace::new(0, v), &mut t2);
        chk("enext", (t2.tet, t2.ver), [d, a, o, p])?;
        eprev(&TriFace::new(0, v), &mut t2);
        chk("eprev", (t2.tet, t2.ver), [a, o, d, p])?;
        // the face number is the vertex it lacks
        need!(all[v][3] == v & 3, "handle {v} lies on face {} but lacks vertex {}", v & 3, all[v][3]);
    }
    for v in 0..4 {
        let f = TriFace::new(0, gpf::triangle::VPIVOT[v]);
        need!(m.org(&f) == v, "VPIVOT[{v}] starts at {}", m.org(&f));
    }
    Ok(())
}

/// glue two tetrahedra along every pair of faces in every rotation through the neighbour records
fn glue(m0: &TetMesh) -> Result<(), String> {
    // records (face of t1, face version of t2) as found by any glue must describe the geometry
    for t in 0..m0.tets.len() {
        for v in 0..12 {
            let a = TriFace::new(t, v);
            let mut b = TriFace::default();
            m0.fsym(&a, &mut b);
            let mut c = a.clone();
            m0.fsym_self(&mut c);
            need!(b.tet == c.tet && b.ver == c.ver, "fsym and fsym_self differ on handle {v}");
            let (x, y) = (names(m0, &a), names(m0, &b));
            need!(b.tet == m0.tets[t].nei[v & 3].tet && x[0] == y[1] && x[1] == y[0] && x[2] == y[2], "fsym of {x:?} is {y:?}");
            m0.fsym_self(&mut c);
            need!(c.tet == t && c.ver == v, "fsym twice of handle {v} is handle {} of tet {}", c.ver, c.tet);
            let mut n = a.clone();
            m0.fnext_self(&mut n);
            let z = names(m0, &n);
            need!(z[0] == x[0] && z[1] == x[1] && z[2] == x[3], "fnext of {x:?} is {z:?}");
            need!(n.tet != t, "fnext stays in the tetrahedron");
        }
    }
    Ok(())
}

/// all 24 labelings of both tetrahedra of a pair glued along a face, with neighbour records computed
/// from the definition: nei[f] names the handle of the neighbour that faces handle f
fn glue_all() -> Result<(), String> {
    let perms: Vec<Q> = (0..256).map(|x| [x & 3, (x >> 2) & 3, (x >> 4) & 3, (x >> 6) & 3]).filter(|q: &Q| (0..4).all(|i| (0..i).all(|j| q[i] != q[j]))).collect();
    let m1 = mesh(vec![tet([0, 1, 2, 3])]);
    let base_even = even(names(&m1, &TriFace::new(0, 0)));
    let _ = base_even;
    for p in &perms {
        for q in &perms {
            // first tet: vertices 0..3 in order p; second: face {0,1,2} plus vertex 4 in order q, mirrored
            let d1 = p.map(|i| i);
            let d2 = q.map(|i| [1, 0, 2, 4][i]);
            if even(*p) != even(*q) {
                continue;
            }
            let mut m = mesh(vec![tet(d1), tet(d2)]);
            let f1 = (0..4).find(|&i| d1[i] == 3).unwrap();
            let f2 = (0..4).find(|&i| d2[i] == 4).unwrap();
            // the record for face f is the handle across from handle f (version 0 of the face)
            let a = names(&m, &TriFace::new(0, f1));
            let b = names(&m, &TriFace::new(1, f2));
            let ha = (0..12).find(|&v| v & 3 == f2 && { let y = names(&m, &TriFace::new(1, v)); y[0] == a[1] && y[1] == a[0] });
            let hb = (0..12).find(|&v| v & 3 == f1 && { let y = names(&m, &TriFace::new(0, v)); y[0] == b[1] && y[1] == b[0] });
            let (ha, hb) = match (ha, hb) {
                (Some(x), Some(y)) => (x, y),
                _ => return Err(format!("tets {d1:?} and {d2:?} share a face with opposite orientation but no handle matches")),
            };
            m.tets[0].nei[f1] = TriFace::new(1, ha);
            m.tets[1].nei[f2] = TriFace::new(0, hb);
            for (t, f) in [(0, f1), (1, f2)] {
                for v in [f, f + 4, f + 8] {
                    let x = TriFace::new(t, v);
                    let mut y = TriFace::default();
                    m.fsym(&x, &mut y);
                    let (nx, ny) = (names(&m, &x), names(&m, &y));
                    need!(y.tet == 1 - t && nx[0] == ny[1] && nx[1] == ny[0] && nx[2] == ny[2], "crossing the common face of {d1:?} and {d2:?} from {nx:?} arrives at {ny:?}");
                    // turning around the edge from the other side of the first tet
                    let mut e = x.clone();
                    e.esym_self();
                    let ne = names(&m, &e);
                    m.fnext_self(&mut e);
                    let nf = names(&m, &e);
                    need!(e.tet == 1 - t && nf[0] == ne[0] && nf[1] == ne[1] && nf[2] == ne[3], "turning around {ne:?} in {d1:?}, {d2:?} gives {nf:?}");
                }
            }
        }
    }
    Ok(())
}

pub fn run(c: &mut Ctx) {
    c.case(|_| (), |_| "the 12 handles of one tetrahedron".into(), |_, _| moves());
    c.case(|_| (), |_| "all 288 labelings of two tetrahedra glued along a face".into(), |_, _| glue_all());
    while c.time_left() {
        c.case(
            |r| crate::p_tet::gen_pts(r),
            |p| format!("handles in tetrahedralize({p:?})"),
            |p, cov| {
                let f: Vec<f64> = p.iter().flatten().map(|&x| x as f64).collect();
                if p.len() < 4 || p.len() > 60 {
                    *cov.entry("trivial".into()).or_insert(0) += 1;
                    return Ok(());
                }
                let m = tetrahedralize(&f);
                if m.tets.is_empty() {
                    *cov.entry("trivial".into()).or_insert(0) += 1;
                    return Ok(());
                }
                *cov.entry("glued faces".into()).or_insert(0) += 4 * m.tets.len() as u64;
                glue(&m)
            },
        );
    }
}
