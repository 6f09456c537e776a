//! C26: nodes give back what was put into them, and hand-made trees of them work.
use glam::{Vec3, Vec4};
use rtbvh::*;
use vh::{geo::*, rays::*, rng::*, run::*, scene::*, trav::cap};

fn bits(v: Vec3) -> [u32; 3] {
    [v.x.to_bits(), v.y.to_bits(), v.z.to_bits()]
}

fn opt(r: &mut Rng) -> Option<u32> {
    match r.below(8) {
        0 | 1 => None,
        2 => Some(0),
        3 => Some(1),
        4 => Some(i32::MAX as u32),
        5 => Some(r.pick(&[255u32, 256, 65_535, 65_536, 1 << 24, (1 << 24) + 1, (1 << 30) - 1, 1 << 30])),
        _ => Some(r.below(1 << 20) as u32),
    }
}

/// the number that follows `label` in a text
fn after(text: &str, label: &str) -> Option<String> {
    let at = text.find(label)? + label.len();
    let rest = text[at..].trim_start_matches([' ', ':', '=']);
    Some(rest.chars().take_while(|c| c.is_ascii_digit() || *c == '-').collect())
}

fn accessors(cx: &mut Ctx, r: &mut Rng) {
    let mut n = BvhNode::new();
    let (mut mn, mut mx) = (r.vec3(-100.0, 100.0), r.vec3(-100.0, 100.0));
    n.bounds.min = mn;
    n.bounds.max = mx;
    let (mut link, mut count) = (opt(r), opt(r));
    n = n.with_left_first(link).with_count(count);
    for step in 0..24 {
        let what = r.below(7);
        match what {
            0 => {
                link = opt(r);
                n.set_left_first(link);
            }
            1 => {
                count = opt(r);
                n.set_count(count);
            }
            2 => {
                link = opt(r);
                n = n.with_left_first(link);
            }
            3 => {
                count = opt(r);
                n = n.with_count(count);
            }
            4 => {
                mn = r.vec3(-1e4, 1e4);
                mx = r.vec3(-1e4, 1e4);
                n.bounds.min = mn;
                n.bounds.max = mx;
            }
            5 => n = n.clone(),
            _ => {
                let p = r.vec3(-1e4, 1e4);
                n.bounds.grow(p);
                mn = mn.min(p);
                mx = mx.max(p);
            }
        }
        cx.count("node_operations", 1);
        let un = |o: Option<u32>| o.map_or(-1, |v| v as i32);
        let ok = n.get_left_first() == link
            && n.get_count() == count
            && n.get_left_first_unchecked() == un(link)
            && n.get_count_unchecked() == un(count)
            && n.is_leaf() == count.is_some()
            && n.is_valid() == link.is_some()
            && n.has_children() == (count.is_none() && link.is_some());
        if !ok {
            cx.fail("accessors", format!("step {step} op {what}: link {link:?} count {count:?}, node says {:?} {:?} {} {} leaf {} valid {} children {}", n.get_left_first(), n.get_count(), n.get_left_first_unchecked(), n.get_count_unchecked(), n.is_leaf(), n.is_valid(), n.has_children()));
            return;
        }
        if bits(n.bounds.min) != bits(mn) || bits(n.bounds.max) != bits(mx) {
            cx.fail("box-disturbed", format!("step {step} op {what}: box {:?}..{:?} instead of {mn:?}..{mx:?}", n.bounds.min, n.bounds.max));
            return;
        }
        if step % 8 == 7 {
            let text = format!("{n}");
            let (l, c) = (after(&text, "left_first"), after(&text, "count"));
            if l != Some(un(link).to_string()) || c != Some(un(count).to_string()) || !text.contains(&format!("{}", mn)) || !text.contains(&format!("{}", mx)) {
                cx.fail("display", format!("{text:?} for link {link:?} count {count:?} box {mn}..{mx}"));
                return;
            }
        }
    }
    cx.eval(mix(r.0), true);
    // quad nodes
    let mut q = if r.chance(0.5) { MbvhNode::new() } else { MbvhNode::default() };
    if q.children.iter().any(|c| *c >= 0) || q.counts.iter().any(|c| *c >= 0) {
        cx.fail("new-quad-node", format!("a new quad node refers to {:?} / {:?}", q.children, q.counts));
        return;
    }
    let mut lanes: [[Vec3; 2]; 4] = Default::default();
    for l in 0..4 {
        lanes[l] = [r.vec3(-50.0, 50.0), r.vec3(-50.0, 50.0)];
        q.set_bounds(l, &lanes[l][0].to_array(), &lanes[l][1].to_array());
    }
    for step in 0..16 {
        let l = r.below(4);
        let (a, b) = (r.vec3(-50.0, 50.0), r.vec3(-50.0, 50.0));
        let op = r.below(3);
        match op {
            0 => {
                q.set_bounds(l, &a.to_array(), &b.to_array());
                lanes[l] = [a, b];
            }
            1 => {
                let mut x = mk_aabb(a, b);
                x.min = a;
                x.max = b;
                x.extra1 = r.below(1000) as i32;
                x.extra2 = r.below(1000) as i32;
                q.set_bounds_bb(l, &x);
                lanes[l] = [a, b];
            }
            _ => q = q.clone(),
        }
        cx.count("quad_node_operations", 1);
        let (a0, b0, a1, b1, a2, b2) = q.points();
        let (n0, n1, n2) = q.min_points();
        let (m0, m1, m2) = q.max_points();
        for l in 0..4 {
            let want = [lanes[l][0], lanes[l][1]];
            for (name, got) in [
                ("points", [Vec3::new(a0[l], a1[l], a2[l]), Vec3::new(b0[l], b1[l], b2[l])]),
                ("min_points/max_points", [Vec3::new(n0[l], n1[l], n2[l]), Vec3::new(m0[l], m1[l], m2[l])]),
            ] {
                if bits(got[0]) != bits(want[0]) || bits(got[1]) != bits(want[1]) {
                    cx.fail("quad-lane", format!("step {step} op {op}: {name} of lane {l} is {got:?} instead of {want:?}"));
                    return;
                }
            }
        }
        if q.children != [-1; 4] || q.counts != [-1; 4] {
            cx.fail("quad-links", format!("setting bounds changed the links: {:?} {:?}", q.children, q.counts));
            return;
        }
    }
    cx.eval(mix(r.0), true);
}

/// Model of one step of a traversal: is this box entered?
#[derive(Clone, Copy)]
struct Enter {
    must: bool,
    may: bool,
}

fn enter(min: Vec3, max: Vec3, rs: &[RaySpec], quad: bool) -> Enter {
    let packet = rs.len() > 1;
    let (mut must, mut may) = (false, false);
    for s in rs {
        let v = box_verdict(min, max, &s.r64());
        let t = s.t as f64;
        let front = if packet { 0.0 } else { s.tmin as f64 };
        if v.pass == Some(true) && v.exit > front.max(0.0) + v.tol && v.entry < t - v.tol {
            must = true;
        }
        let miss = v.pass == Some(false) || ((quad || packet) && v.entry > t + v.tol) || (!quad && v.exit < front - v.tol);
        may |= !miss;
    }
    Enter { must, may }
}

#[derive(Clone)]
enum N {
    Leaf(usize, usize),
    Pair(usize),
    Dead,
}

struct Hand {
    nodes: Vec<BvhNode>,
    model: Vec<N>,
    indices: Vec<u32>,
    leaves: usize,
    empty: usize,
    dead: usize,
    depth: usize,
}

fn inner_box(r: &mut Rng, p: (Vec3, Vec3)) -> (Vec3, Vec3) {
    // mostly a good part of the parent, so that rays get deep
    let e = p.1 - p.0;
    let a = p.0 + e * r.vec3(0.0, 0.35);
    let mut b = p.1 - e * r.vec3(0.0, 0.35);
    if r.chance(0.05) {
        let k = r.below(3);
        b[k] = a[k];
    }
    if r.chance(0.05) {
        // not nested at all
        let c = r.vec3(-8.0, 8.0);
        return (c, c + r.vec3(0.5, 4.0));
    }
    (a, b)
}

fn hand_tree(r: &mut Rng, want: usize, chain: bool) -> Hand {
    // positions of sibling pairs, in any order and with unused nodes between
    let pairs = want.max(1);
    let gaps = r.below(pairs + 2);
    let mut at: Vec<usize> = vec![];
    let mut pos = 1;
    let mut g = gaps;
    for k in 0..pairs {
        if g > 0 && r.chance(0.4) {
            let w = 1 + r.below(g.min(3));
            pos += w;
            g -= w;
        }
        let _ = k;
        at.push(pos);
        pos += 2;
    }
    if r.chance(0.5) {
        pos += g;
    }
    if !chain || r.chance(0.5) {
        r.shuffle(&mut at);
    }
    let mut nodes = vec![BvhNode::new(); pos];
    let mut model = vec![N::Dead; pos];
    for n in nodes.iter_mut() {
        // unused: neither leaf nor parent
        n.set_count(None);
        n.set_left_first(None);
    }
    let mut bx = vec![(Vec3::splat(-10.0), Vec3::splat(10.0)); pos];
    let mut depth_of = vec![0usize; pos];
    let mut open = vec![0usize];
    let mut depth = 0;
    for &left in &at {
        let k = if chain { open.len() - 1 } else { r.below(open.len()) };
        let x = open.swap_remove(k);
        model[x] = N::Pair(left);
        for c in [left, left + 1] {
            bx[c] = if chain && pairs > 40 {
                let e = (bx[x].1 - bx[x].0) * 0.002;
                (bx[x].0 + e, bx[x].1 - e)
            } else {
                inner_box(r, bx[x])
            };
            depth_of[c] = depth_of[x] + 1;
            depth = depth.max(depth_of[c]);
            open.push(c);
        }
    }
    let mut indices = vec![];
    let (mut leaves, mut empty, mut dead) = (0, 0, 0);
    r.shuffle(&mut open);
    let mut next = 0u32;
    for x in open {
        if r.chance(0.1) {
            dead += 1;
            continue;
        }
        let c = if r.chance(0.15) { 0 } else { r.range(1, 4) };
        if r.chance(0.1) {
            // references nobody owns
            indices.push(u32::MAX);
        }
        model[x] = N::Leaf(indices.len(), c);
        for _ in 0..c {
            indices.push(next);
            next += 1;
        }
        leaves += 1;
        empty += (c == 0) as usize;
    }
    for x in 0..pos {
        nodes[x].bounds.min = bx[x].0;
        nodes[x].bounds.max = bx[x].1;
        match model[x] {
            N::Leaf(f, c) => {
                nodes[x].set_left_first(Some(f as u32));
                nodes[x].set_count(Some(c as u32));
            }
            N::Pair(l) => nodes[x].set_left_first(Some(l as u32)),
            N::Dead => {}
        }
    }
    Hand { nodes, model, indices, leaves, empty, dead, depth }
}

/// required and allowed yields of a binary tree
fn expect(h: &Hand, rs: &[RaySpec], quad_of: bool) -> Vec<Enter> {
    let n = h.indices.len();
    let mut out = vec![Enter { must: false, may: false }; n];
    // (node, entered, levels below the last box that was tested)
    let mut stack = vec![(0usize, Enter { must: true, may: true })];
    while let Some((x, e)) = stack.pop() {
        match h.model[x] {
            N::Leaf(f, c) => {
                for k in f..f + c {
                    out[h.indices[k] as usize] = e;
                }
            }
            N::Pair(l) => {
                for y in [l, l + 1] {
                    let b = &h.nodes[y].bounds;
                    let own = enter(b.min, b.max, rs, quad_of);
                    // a quad node skips the boxes of the level in between
                    let e2 = if quad_of {
                        Enter { must: e.must && own.must, may: e.may }
                    } else {
                        Enter { must: e.must && own.must, may: e.may && own.may }
                    };
                    let e2 = if quad_of && matches!(h.model[y], N::Leaf(..)) { Enter { must: e2.must, may: e.may && own.may } } else { e2 };
                    stack.push((y, e2));
                }
            }
            N::Dead => {}
        }
    }
    out
}

macro_rules! drain {
    ($it:expr, $cap:expr, $f:expr) => {{
        let mut v: Vec<u32> = vec![];
        let mut end = false;
        let mut it = $it;
        for _ in 0..$cap {
            match it.next() {
                Some((p, _)) => v.push($f(p)),
                None => {
                    end = true;
                    break;
                }
            }
        }
        if end && (it.next().is_some() || it.next().is_some()) {
            end = false;
        }
        (v, end)
    }};
}

fn judge(cx: &mut Ctx, what: &str, h: &[Enter], n: usize, rs: &[RaySpec], got: (Vec<u32>, bool)) -> bool {
    if !got.1 {
        cx.fail("endless", format!("{what}: more yields than references, or yields after the end, for {rs:?}"));
        return false;
    }
    let mut times = vec![0u32; n];
    for p in got.0 {
        if p as usize >= n {
            cx.fail("unknown-yield", format!("{what}: yields {p} of {n}"));
            return false;
        }
        times[p as usize] += 1;
    }
    for p in 0..n {
        cx.count(if h[p].must { "required_yields" } else if h[p].may { "unclear_yields" } else { "forbidden_yields" }, 1);
        if times[p] > 1 {
            cx.fail("twice", format!("{what}: {p} is yielded {} times for {rs:?}", times[p]));
            return false;
        }
        if h[p].must && times[p] == 0 {
            cx.fail("missed", format!("{what}: {p} is not yielded although every box above it is clearly hit by {rs:?}"));
            return false;
        }
        if !h[p].may && times[p] > 0 {
            cx.fail("not-reachable", format!("{what}: {p} is yielded although {rs:?} clearly does not get into a box above it"));
            return false;
        }
    }
    true
}

fn aim(r: &mut Rng) -> RaySpec {
    let lo = Vec3::splat(-10.0);
    let hi = Vec3::splat(10.0);
    let target = if r.chance(0.7) { r.vec3(-2.0, 2.0) } else { r.vec3(-9.0, 9.0) };
    let mut s = gen_ray(r, lo, hi, Some(target));
    let dist = 20.0 / s.d.length();
    match r.below(6) {
        0 => s.t = dist * r.uni(0.2, 2.0),
        1 => s.o = r.vec3(-9.0, 9.0),
        2 => s.tmin = dist * r.uni(0.0, 1.0),
        _ => {}
    }
    s
}

fn trees(cx: &mut Ctx, r: &mut Rng) {
    let chain = r.chance(0.15);
    let want = if chain {
        r.pick(&[5usize, 31, 32, 33, 34, 63, 64, 65, 66, 120, 300])
    } else {
        r.pick(&[1usize, 1, 2, 2, 3, 4, 5, 8, 20, 60, 200])
    };
    let h = hand_tree(r, want, chain);
    let n = h.indices.iter().filter(|i| **i != u32::MAX).count();
    let what = format!("hand-made tree of {} nodes ({} pairs, {} leaves, {} empty, {} dead ends, depth {})", h.nodes.len(), want, h.leaves, h.empty, h.dead, h.depth);
    cx.count("hand_made_trees", 1);
    cx.count("empty_leaves", h.empty as u64);
    cx.count("dead_ends", h.dead as u64);
    cx.max("max_depth", h.depth as u64);
    let m = Mbvh::construct_from_raw(&h.nodes, &h.indices);
    if m.indices() != h.indices {
        cx.fail("raw-indices", format!("{what}: the quad BVH has other indices"));
        return;
    }
    // boxes as primitives, told apart by their address
    let prims: Vec<Aabb> = (0..n).map(|i| mk_aabb(Vec3::splat(i as f32), Vec3::splat(i as f32 + 0.5))).collect();
    let id = |p: &Aabb| ((p as *const Aabb as usize - prims.as_ptr() as usize) / std::mem::size_of::<Aabb>()) as u32;
    let c = cap(h.indices.len());
    for _ in 0..12 {
        let s = aim(r);
        let one = [s];
        let four = [aim(r), if r.chance(0.5) { s } else { aim(r) }, aim(r), s];
        let e1 = expect(&h, &one, false);
        let e4 = expect(&h, &four, false);
        let q1 = expect(&h, &one, true);
        let q4 = expect(&h, &four, true);
        // index traversals yield indices as they are, u32::MAX is never part of a leaf
        let mut ray = s.ray();
        let g = drain!(BvhIndexIterator::from_slices(&mut ray, &h.nodes, &h.indices), c, |i| i);
        if !judge(cx, &format!("{what}: indices"), &e1, n, &one, g) {
            return;
        }
        let g = drain!(BvhIterator::from_slices(&mut ray, &h.nodes, &h.indices, &prims), c, id);
        if n > 0 && !judge(cx, &format!("{what}: primitives"), &e1, n, &one, g) {
            return;
        }
        let mut pk = packet_of(&four);
        let g = drain!(BvhPacketIndexIterator::from_slices(&mut pk, &h.nodes, &h.indices), c, |i| i);
        if !judge(cx, &format!("{what}: packet indices"), &e4, n, &four, g) {
            return;
        }
        let g = drain!(BvhPacketIterator::from_slices(&mut pk, &h.nodes, &h.indices, &prims), c, id);
        if n > 0 && !judge(cx, &format!("{what}: packet primitives"), &e4, n, &four, g) {
            return;
        }
        let g = drain!(m.traverse_iter_indices(&mut ray), c, |i| i);
        if !judge(cx, &format!("{what}: quad indices"), &q1, n, &one, g) {
            return;
        }
        let g = drain!(m.traverse_iter(&mut ray, &prims), c, id);
        if n > 0 && !judge(cx, &format!("{what}: quad primitives"), &q1, n, &one, g) {
            return;
        }
        let g = drain!(m.traverse_iter_indices_packet(&mut pk), c, |i| i);
        if !judge(cx, &format!("{what}: quad packet indices"), &q4, n, &four, g) {
            return;
        }
        let g = drain!(m.traverse_iter_packet(&mut pk, &prims), c, id);
        if n > 0 && !judge(cx, &format!("{what}: quad packet primitives"), &q4, n, &four, g) {
            return;
        }
        cx.eval(mix(r.0), n > 2);
    }
    cx.sample(|| what);
}

/// quad nodes put together by hand
fn quads(cx: &mut Ctx, r: &mut Rng) {
    let want = r.pick(&[1usize, 1, 2, 3, 5, 9, 30, 100]);
    let mut q: Vec<MbvhNode> = vec![MbvhNode::new(); want];
    let mut order: Vec<usize> = (1..want).collect();
    r.shuffle(&mut order);
    let mut slots: Vec<(usize, usize)> = (0..4).map(|l| (0, l)).collect();
    let mut parent_slot: Vec<Option<(usize, usize)>> = vec![None; want];
    let mut bx = vec![[(Vec3::ZERO, Vec3::ZERO); 4]; want];
    let root = (Vec3::splat(-10.0), Vec3::splat(10.0));
    for l in 0..4 {
        bx[0][l] = inner_box(r, root);
    }
    for &x in &order {
        let k = r.below(slots.len());
        let s = slots.swap_remove(k);
        parent_slot[x] = Some(s);
        q[s.0].children[s.1] = x as i32;
        q[s.0].counts[s.1] = -1;
        for l in 0..4 {
            bx[x][l] = inner_box(r, bx[s.0][s.1]);
            slots.push((x, l));
        }
    }
    let mut indices: Vec<u32> = vec![];
    let mut leaf: Vec<((usize, usize), usize, usize)> = vec![];
    for s in slots {
        if r.chance(0.25) {
            cx.count("unused_lanes", 1);
            continue;
        }
        let c = if r.chance(0.15) { 0 } else { r.range(1, 4) };
        q[s.0].children[s.1] = indices.len() as i32;
        q[s.0].counts[s.1] = c as i32;
        leaf.push((s, indices.len(), c));
        for _ in 0..c {
            indices.push(indices.len() as u32);
        }
    }
    for x in 0..want {
        for l in 0..4 {
            q[x].set_bounds(l, &bx[x][l].0.to_array(), &bx[x][l].1.to_array());
        }
    }
    let n = indices.len();
    cx.count("hand_made_quad_trees", 1);
    let what = format!("hand-made tree of {want} quad nodes with {n} references");
    let prims: Vec<Aabb> = (0..n).map(|i| mk_aabb(Vec3::splat(i as f32), Vec3::splat(i as f32 + 0.5))).collect();
    let id = |p: &Aabb| ((p as *const Aabb as usize - prims.as_ptr() as usize) / std::mem::size_of::<Aabb>()) as u32;
    let c = cap(n);
    for _ in 0..12 {
        let s = aim(r);
        let one = [s];
        let four = [aim(r), aim(r), if r.chance(0.5) { s } else { aim(r) }, s];
        for (rs, packet) in [(&one[..], false), (&four[..], true)] {
            let mut e = vec![Enter { must: false, may: false }; n];
            for (slot, f, k) in &leaf {
                let mut st = Enter { must: true, may: true };
                let mut at = Some(*slot);
                while let Some(s) = at {
                    let b = bx[s.0][s.1];
                    let x = enter(b.0, b.1, rs, true);
                    st = Enter { must: st.must && x.must, may: st.may && x.may };
                    at = parent_slot[s.0];
                }
                for i in *f..*f + *k {
                    e[i] = st;
                }
            }
            if packet {
                let mut pk = packet_of(&four);
                let g = drain!(MbvhPacketIndexIterator::from_slices(&mut pk, &q, &indices), c, |i| i);
                if !judge(cx, &format!("{what}: packet indices"), &e, n, rs, g) {
                    return;
                }
                let g = drain!(MbvhPacketIterator::from_slices(&mut pk, &q, &indices, &prims), c, id);
                if n > 0 && !judge(cx, &format!("{what}: packet primitives"), &e, n, rs, g) {
                    return;
                }
            } else {
                let mut ray = s.ray();
                let g = drain!(MbvhIndexIterator::from_slices(&mut ray, &q, &indices), c, |i| i);
                if !judge(cx, &format!("{what}: indices"), &e, n, rs, g) {
                    return;
                }
                let g = drain!(MbvhIterator::from_slices(&mut ray, &q, &indices, &prims), c, id);
                if n > 0 && !judge(cx, &format!("{what}: primitives"), &e, n, rs, g) {
                    return;
                }
            }
        }
        cx.eval(mix(r.0), n > 2);
    }
    let _ = Vec4::ZERO;
}

fn main() {
    run("C26", 200, 2000, |cx| {
        let mut r = cx.rng();
        for _ in 0..20 {
            accessors(cx, &mut r);
        }
        for _ in 0..6 {
            trees(cx, &mut r);
        }
        for _ in 0..4 {
            quads(cx, &mut r);
        }
    });
}
