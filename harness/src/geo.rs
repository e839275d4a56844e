//! Independent small rigid-body geometry (no shared code with the library).
pub type V3 = [f64; 3];
pub type M3 = [[f64; 3]; 3];
pub fn rot_of(p: &[f64; 16]) -> M3 {
    let mut r = [[0.; 3]; 3];
    for c in 0..3 {
        for i in 0..3 {
            r[i][c] = p[c * 4 + i];
        }
    }
    r
}
pub fn pose(r: &M3, t: &V3) -> [f64; 16] {
    let mut p = [0.; 16];
    for c in 0..3 {
        for i in 0..3 {
            p[c * 4 + i] = r[i][c];
        }
        p[12 + c] = t[c];
    }
    p[15] = 1.;
    p
}
pub fn trans(p: &[f64; 16]) -> V3 {
    [p[12], p[13], p[14]]
}
pub fn mul(a: &M3, b: &M3) -> M3 {
    let mut r = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}
pub fn tr(a: &M3) -> M3 {
    let mut r = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub fn norm(v: &[f64]) -> f64 {
    v.iter().map(|x| x * x).sum::<f64>().sqrt()
}
/// Rotation by `ang` about the (not necessarily unit) axis.
pub fn rot(axis: &V3, ang: f64) -> M3 {
    let n = norm(axis);
    if n == 0. {
        return [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
    }
    let u = [axis[0] / n, axis[1] / n, axis[2] / n];
    let (s, c) = ang.sin_cos();
    let mut r = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            r[i][j] = (1. - c) * u[i] * u[j] + if i == j { c } else { 0. };
        }
    }
    r[0][1] -= s * u[2];
    r[0][2] += s * u[1];
    r[1][0] += s * u[2];
    r[1][2] -= s * u[0];
    r[2][0] -= s * u[1];
    r[2][1] += s * u[0];
    r
}
/// Unit quaternion (w,x,y,z) of a rotation matrix (largest-component method).
pub fn quat(r: &M3) -> [f64; 4] {
    let t = r[0][0] + r[1][1] + r[2][2];
    let mut q = if t > 0. {
        let s = (t + 1.).sqrt() * 2.;
        [0.25 * s, (r[2][1] - r[1][2]) / s, (r[0][2] - r[2][0]) / s, (r[1][0] - r[0][1]) / s]
    } else if r[0][0] > r[1][1] && r[0][0] > r[2][2] {
        let s = (1. + r[0][0] - r[1][1] - r[2][2]).max(0.).sqrt() * 2.;
        [(r[2][1] - r[1][2]) / s, 0.25 * s, (r[0][1] + r[1][0]) / s, (r[0][2] + r[2][0]) / s]
    } else if r[1][1] > r[2][2] {
        let s = (1. + r[1][1] - r[0][0] - r[2][2]).max(0.).sqrt() * 2.;
        [(r[0][2] - r[2][0]) / s, (r[0][1] + r[1][0]) / s, 0.25 * s, (r[1][2] + r[2][1]) / s]
    } else {
        let s = (1. + r[2][2] - r[0][0] - r[1][1]).max(0.).sqrt() * 2.;
        [(r[1][0] - r[0][1]) / s, (r[0][2] + r[2][0]) / s, (r[1][2] + r[2][1]) / s, 0.25 * s]
    };
    let n = norm(&q);
    for x in q.iter_mut() {
        *x /= n;
    }
    q
}
/// Rotation vector (axis times angle in [0,pi]).
pub fn log(r: &M3) -> V3 {
    let mut q = quat(r);
    if q[0] < 0. {
        for x in q.iter_mut() {
            *x = -*x;
        }
    }
    let v = [q[1], q[2], q[3]];
    let n = norm(&v);
    if n < 1e-300 {
        return [0.; 3];
    }
    let ang = 2. * n.atan2(q[0]);
    let k = if n < 1e-8 { 2. / q[0] } else { ang / n };
    [v[0] * k, v[1] * k, v[2] * k]
}
/// Angle of the relative rotation.
pub fn angle(a: &M3, b: &M3) -> f64 {
    norm(&log(&mul(b, &tr(a))))
}
/// Spatial velocity that leads from pose a to pose b in dt (rotation part expressed in the base frame).
pub fn twist(a: &[f64; 16], b: &[f64; 16], dt: f64) -> [f64; 6] {
    let w = log(&mul(&rot_of(b), &tr(&rot_of(a))));
    [(b[12] - a[12]) / dt, (b[13] - a[13]) / dt, (b[14] - a[14]) / dt, w[0] / dt, w[1] / dt, w[2] / dt]
}
pub fn maxdiff(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| (x - y).abs()).fold(0., |m: f64, x| if x.is_nan() { f64::INFINITY } else { m.max(x) })
}
