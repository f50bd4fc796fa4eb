// ---------------------------------------------------------------------------
// One row of the remove transformation: which deleted nodes are paired up
// ---------------------------------------------------------------------------
/// the deleted nodes among the first k whose sibling is not deleted
pub open spec fn wos(s: Seq<int>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else { let q = wos(s, k - 1); if s.contains(sib(s[k - 1])) { q } else { q.push(s[k - 1]) } } }
/// parents deleted as a whole: of sibling pairs, and of every second node without sibling (its partner's sibling moves there)
pub open spec fn cnp(s: Seq<int>, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else { let q = cnp(s, k - 1); let x = s[k - 1];
        if s.contains(sib(x)) { if x % 2 == 1 { q.push(x / 2) } else { q } } else if wos(s, k).len() % 2 == 0 { q.push(x / 2) } else { q } }
}
pub open spec fn wall(s: Seq<int>) -> Seq<int> { wos(s, s.len() as int) }
/// the deleted nodes of the next row; `extra`: the parent of the unpaired node is deleted too
pub open spec fn nextp(s: Seq<int>, extra: bool) -> Seq<int> { let c = cnp(s, s.len() as int); if extra && wall(s).len() > 0 { c.push(wall(s).last() / 2) } else { c } }
pub open spec fn mk_swap(from: int, to: int, collapse: bool) -> Swap { Swap { m_from: from as u64, m_to: to as u64, m_collapse: collapse, m_is_range_swap: false, m_range: 0 } }
/// the swaps that pair up the first 2k nodes without sibling
pub open spec fn mksw(h: int, r: int, w: Seq<int>, k: int) -> Seq<Swap> { Seq::new(k as nat, |m: int| mk_swap(gp(h, r, sib(w[2 * m + 1])), gp(h, r, w[2 * m]), false)) }
pub open spec fn mksws(h: int, r: int, w: Seq<int>, root: bool, ri: int) -> Seq<Swap> { let p = mksw(h, r, w, w.len() as int / 2); if root { p.push(mk_swap(gp(h, r, ri), gp(h, r, w.last()), false)) } else { p } }

pub proof fn wos_props(s: Seq<int>, k: int) requires asc(s), 0 <= k <= s.len()
    ensures asc(wos(s, k)), wos(s, k).len() <= k, forall|x: int| #[trigger] wos(s, k).contains(x) <==> s.contains(x) && !s.contains(sib(x)) && k > 0 && x <= s[k - 1], forall|a: int| 0 <= a < wos(s, k).len() ==> #[trigger] wos(s, k)[a] == wall(s)[a], wos(s, k).len() <= wall(s).len(),
    decreases k
{
    wos_pre(s, k, s.len() as int);
    let o = wos(s, k);
    if k > 0 {
        wos_props(s, k - 1); let q = wos(s, k - 1); let y = s[k - 1]; 
        assert forall|a: int, b: int| 0 <= a < b < o.len() implies #[trigger] o[a] < #[trigger] o[b] by { if b == q.len() { assert(q.contains(q[a])); assert(k > 1); assert(s[k - 2] < s[k - 1]); } }
        assert forall|x: int| #[trigger] o.contains(x) <==> s.contains(x) && !s.contains(sib(x)) && k > 0 && x <= s[k - 1] by {
            if o.contains(x) { let i = o.index_of(x); if i < q.len() { assert(q[i] == x); assert(q.contains(x)); assert(s[k - 2] < s[k - 1]); } else { assert(x == y); assert(s.contains(s[k - 1])); } }
            if s.contains(x) && !s.contains(sib(x)) && x <= s[k - 1] { 
                let i = s.index_of(x); if i > k - 1 { assert(s[k - 1] < s[i]); }
                if i == k - 1 { assert(o[o.len() - 1] == x); } else { if i < k - 2 { assert(s[i] < s[k - 2]); } assert(q.contains(x)); let m = q.index_of(x); assert(o[m] == x); }
            }
        }
    }
}
pub proof fn wos_pre(s: Seq<int>, k: int, l: int) requires 0 <= k <= l ensures wos(s, k).len() <= wos(s, l).len(), forall|a: int| 0 <= a < wos(s, k).len() ==> #[trigger] wos(s, k)[a] == wos(s, l)[a] decreases l - k
{ if k < l { wos_pre(s, k, l - 1); } }
pub open spec fn inc(s: Seq<int>, k: int, p: int) -> bool { (s.contains(2 * p) && s.contains(2 * p + 1) && k > 0 && 2 * p + 1 <= s[k - 1]) || (exists|m: int| 0 <= m < wos(s, k).len() && m % 2 == 1 && #[trigger] wos(s, k)[m] / 2 == p) }
pub proof fn cnp_props(s: Seq<int>, k: int, m: int) requires asc(s), within(s, 2 * m), 0 <= k <= s.len()
    ensures asc(cnp(s, k)), within(cnp(s, k), m), forall|p: int| #[trigger] cnp(s, k).contains(p) <==> inc(s, k, p), forall|a: int| 0 <= a < cnp(s, k).len() ==> k > 0 && #[trigger] cnp(s, k)[a] <= s[k - 1] / 2
    decreases k
{
    let o = cnp(s, k);
    if k > 0 {
        cnp_props(s, k - 1, m); let q = cnp(s, k - 1); let x = s[k - 1]; let w0 = wos(s, k - 1); let w = wos(s, k); wos_props(s, k - 1); wos_props(s, k);
        assert(0 <= x < 2 * m); if k > 1 { assert(s[k - 2] < x); } assert(s.contains(x));
        let hassib = s.contains(sib(x));
        if hassib { let i = s.index_of(sib(x)); if x % 2 == 1 { if i >= k { assert(s[k - 1] < s[i]); } if i < k - 2 { assert(s[i] < s[k - 2]); } assert(k > 1 && s[k - 2] == x - 1); } else { if i < k - 1 { assert(s[i] < s[k - 1]); } } }
        let pushed = (hassib && x % 2 == 1) || (!hassib && w.len() % 2 == 0);
        // a parent is stored once
        if pushed { 
            assert forall|a: int| 0 <= a < q.len() implies #[trigger] q[a] < x / 2 by {
                assert(q[a] <= s[k - 2] / 2);
                if q[a] == x / 2 { assert(q.contains(q[a])); let p = q[a]; assert(inc(s, k - 1, p)); 
                    if s.contains(2 * p) && s.contains(2 * p + 1) && 2 * p + 1 <= s[k - 2] { assert(x == 2 * p || x == 2 * p + 1); }
                    else { let e = choose|e: int| 0 <= e < w0.len() && e % 2 == 1 && #[trigger] w0[e] / 2 == p; assert(w0.contains(w0[e])); assert(w0[e] <= s[k - 2]); assert(w0[e] != x); assert(sib(w0[e]) == x); } }
            }
            assert forall|a: int, b: int| 0 <= a < b < o.len() implies #[trigger] o[a] < #[trigger] o[b] by { if b == q.len() { assert(q[a] < x / 2); } }
            assert(o == q.push(x / 2));
        } else { assert(o == q); }
        assert forall|a: int| 0 <= a < o.len() implies #[trigger] o[a] <= s[k - 1] / 2 by { if a < q.len() { assert(q[a] <= s[k - 2] / 2); } }
        assert forall|p: int| #[trigger] o.contains(p) <==> inc(s, k, p) by {
            if o.contains(p) { let i = o.index_of(p);
                if i < q.len() { assert(q[i] == p); assert(q.contains(p)); assert(inc(s, k - 1, p)); if !(s.contains(2 * p) && s.contains(2 * p + 1) && 2 * p + 1 <= s[k - 2]) { let e = choose|e: int| 0 <= e < w0.len() && e % 2 == 1 && #[trigger] w0[e] / 2 == p; assert(w[e] == w0[e]); } }
                else { assert(p == x / 2); if hassib { } else { assert(w == w0.push(x)); assert(w[w.len() - 1] / 2 == p); } } }
            if inc(s, k, p) {
                if s.contains(2 * p) && s.contains(2 * p + 1) && 2 * p + 1 <= s[k - 1] { 
                    if 2 * p + 1 == x { assert(sib(x) == 2 * p); assert(o[o.len() - 1] == p); }
                    else { let i = s.index_of(2 * p + 1); if i > k - 1 { assert(s[k - 1] < s[i]); } if i < k - 2 { assert(s[i] < s[k - 2]); } assert(inc(s, k - 1, p)); assert(q.contains(p)); let j = q.index_of(p); assert(o[j] == p); } }
                else { let e = choose|e: int| 0 <= e < w.len() && e % 2 == 1 && #[trigger] w[e] / 2 == p;
                    if e < w0.len() { assert(w0[e] / 2 == p); assert(inc(s, k - 1, p)); assert(q.contains(p)); let j = q.index_of(p); assert(o[j] == p); }
                    else { assert(w == w0.push(x)); assert(o[o.len() - 1] == p); } }
            }
        }
    } else { assert(wos(s, 0).len() == 0); assert(forall|p: int| !inc(s, k, p)); }
}
pub open spec fn pend(s: Seq<int>, k: int) -> int { if k > 0 && s.contains(sib(s[k - 1])) && s[k - 1] % 2 == 0 { 1 } else { 0 } }
pub proof fn cnp_count(s: Seq<int>, k: int) requires asc(s), 0 <= k <= s.len() ensures 2 * cnp(s, k).len() + wos(s, k).len() % 2 + pend(s, k) == k decreases k
{
    if k > 0 {
        cnp_count(s, k - 1); let x = s[k - 1]; 
        if k > 1 { let y = s[k - 2]; assert(y < x); assert(s.contains(y) && s.contains(x)); if s.contains(sib(y)) && y % 2 == 0 { let i = s.index_of(y + 1); if i < k - 1 { if i < k - 2 { assert(s[i] < s[k - 2]); } } else if i > k - 1 { assert(s[k - 1] < s[i]); } assert(x == y + 1); } }
        if s.contains(sib(x)) && x % 2 == 1 { let i = s.index_of(x - 1); if i >= k { assert(s[k - 1] < s[i]); } if i < k - 2 { assert(s[i] < s[k - 2]); } assert(s[k - 2] == x - 1); assert(sib(s[k - 2]) == x); }
    }
}
/// the loop's two kinds of steps
pub proof fn tr_step(s: Seq<int>, k: int) requires asc(s), 0 <= k < s.len()
    ensures k + 1 < s.len() && s[k] % 2 == 0 && s[k + 1] == s[k] + 1 ==> wos(s, k + 2) == wos(s, k) && cnp(s, k + 2) == cnp(s, k).push(s[k] / 2),
        !(k + 1 < s.len() && s[k] % 2 == 0 && s[k + 1] == s[k] + 1) && (k == 0 || !(s[k - 1] % 2 == 0 && s[k] == s[k - 1] + 1)) ==> wos(s, k + 1) == wos(s, k).push(s[k]) && cnp(s, k + 1) == (if wos(s, k + 1).len() % 2 == 0 { cnp(s, k).push(s[k] / 2) } else { cnp(s, k) })
{
    assert(s.contains(s[k]));
    if k + 1 < s.len() && s[k] % 2 == 0 && s[k + 1] == s[k] + 1 { assert(s.contains(s[k + 1])); assert(sib(s[k]) == s[k + 1] && sib(s[k + 1]) == s[k]); assert(wos(s, k + 1) == wos(s, k)); assert(cnp(s, k + 1) == cnp(s, k)); assert(s[k + 1] / 2 == s[k] / 2); }
    else if k == 0 || !(s[k - 1] % 2 == 0 && s[k] == s[k - 1] + 1) {
        if s.contains(sib(s[k])) { let i = s.index_of(sib(s[k])); if i > k { if i > k + 1 { assert(s[k + 1] < s[i]); } assert(s[k] < s[k + 1]); } if i < k { if i < k - 1 { assert(s[i] < s[k - 1]); } assert(s[k - 1] < s[k]); } }
    }
}
pub proof fn noroot_props(n: int, r: int, t: Seq<int>) requires 0 <= n, 0 <= r, asc(t), within(t, en(n, r))
    ensures asc(noroot(n, r, t)), within(noroot(n, r, t), 2 * en(n, r + 1)), forall|i: int| #[trigger] noroot(n, r, t).contains(i) <==> t.contains(i) && !(bit(n, r) && i == ri(n, r)),
        t.contains(ri(n, r)) && bit(n, r) <==> t.len() > 0 && bit(n, r) && t.last() == ri(n, r),
{
    let o = noroot(n, r, t); en_half(n, r);
    assert forall|a: int| 0 <= a < o.len() implies 0 <= #[trigger] o[a] < ri(n, r) by { assert(o[a] == t[a]); assert(t[a] < en(n, r)); if bit(n, r) && a < t.len() - 1 { assert(t[a] < t[t.len() - 1]); } }
    if t.contains(ri(n, r)) && bit(n, r) { let a = t.index_of(ri(n, r)); if a < t.len() - 1 { assert(t[a] < t[t.len() - 1]); assert(t[t.len() - 1] < en(n, r)); } }
    if t.len() > 0 && t.last() == ri(n, r) { assert(t[t.len() - 1] == ri(n, r)); }
    assert forall|i: int| #[trigger] o.contains(i) <==> t.contains(i) && !(bit(n, r) && i == ri(n, r)) by {
        if o.contains(i) { let a = o.index_of(i); assert(t[a] == i); }
        if t.contains(i) && !(bit(n, r) && i == ri(n, r)) { let a = t.index_of(i); assert(o[a] == i); }
    }
}
pub proof fn nextp_props(s: Seq<int>, m: int, extra: bool) requires asc(s), within(s, 2 * m), extra ==> wall(s).len() % 2 == 1
    ensures within(nextp(s, extra), m), nextp(s, extra).no_duplicates(), nextp(s, extra).len() == cnp(s, s.len() as int).len() + if extra { 1int } else { 0 },
        forall|p: int| #[trigger] nextp(s, extra).contains(p) <==> inc(s, s.len() as int, p) || (extra && p == wall(s).last() / 2),
{
    let k = s.len() as int; cnp_props(s, k, m); wos_props(s, k); let c = cnp(s, k); let w = wall(s); let o = nextp(s, extra);
    assert forall|a: int, b: int| 0 <= a < c.len() && 0 <= b < c.len() && a != b implies c[a] != c[b] by { if a < b { assert(c[a] < c[b]); } else { assert(c[b] < c[a]); } }
    if extra {
        let l = w.last(); assert(w.contains(w[w.len() - 1])); let i = s.index_of(l); assert(0 <= s[i] < 2 * m);
        if c.contains(l / 2) { let p = l / 2; assert(inc(s, k, p)); 
            if s.contains(2 * p) && s.contains(2 * p + 1) { assert(sib(l) == 2 * p || sib(l) == 2 * p + 1); }
            else { let e = choose|e: int| 0 <= e < w.len() && e % 2 == 1 && #[trigger] w[e] / 2 == p; assert(e < w.len() - 1); assert(w[e] < w[w.len() - 1]); assert(w.contains(w[e])); assert(sib(l) == w[e]); } }
        assert forall|a: int, b: int| 0 <= a < o.len() && 0 <= b < o.len() && a != b implies o[a] != o[b] by { if a < c.len() { assert(c.contains(c[a])); } if b < c.len() { assert(c.contains(c[b])); } }
        assert forall|p: int| #[trigger] o.contains(p) <==> inc(s, k, p) || (extra && p == l / 2) by { if o.contains(p) { let j = o.index_of(p); if j < c.len() { assert(c[j] == p); assert(c.contains(p)); } } if c.contains(p) { let j = c.index_of(p); assert(o[j] == p); } if p == l / 2 { assert(o[o.len() - 1] == p); } }
    }
}
/// the swaps of a row, in indices
pub proof fn mksws_ix(n: int, h: int, r: int, s: Seq<int>, root: bool, m: int)
    requires 0 <= n <= p2(h as nat), h <= 62, 0 <= r < h, asc(s), within(s, 2 * en(n, r + 1)), 0 <= m < mksws(h, r, wall(s), root, ri(n, r)).len(), root ==> wall(s).len() % 2 == 1 && bit(n, r)
    ensures ({ let w = wall(s); let x = mksws(h, r, w, root, ri(n, r))[m]; let l = w.len() as int / 2; !x.m_collapse && !x.m_is_range_swap && (m < l ==> sA(h, r, x) == sib(w[2 * m + 1]) && sB(h, r, x) == w[2 * m]) && (m >= l ==> root && m == l && sA(h, r, x) == ri(n, r) && sB(h, r, x) == w.last()) }),
        mksws(h, r, wall(s), root, ri(n, r)).len() == wall(s).len() / 2 + if root { 1int } else { 0 },
{
    let w = wall(s); let l = w.len() as int / 2; wos_props(s, s.len() as int); en_half(n, r); p2_vals(); p2_mono((h + 1) as nat, 63); gp_rows(h, r, h + 1); gp_rows(h, 0, r); p2_pos((h + 1 - r) as nat);
    if m < l { 
        assert(w.contains(w[2 * m]) && w.contains(w[2 * m + 1])); let a = s.index_of(w[2 * m]); let b = s.index_of(w[2 * m + 1]); assert(0 <= s[a] < 2 * en(n, r + 1) && 0 <= s[b] < 2 * en(n, r + 1));
        idx_gv(n, h, r, s[a]); idx_gv(n, h, r, sib(s[b])); gp_range(h, r, s[a]); gp_range(h, r, sib(s[b]));
    } else { assert(w.contains(w[w.len() - 1])); let a = s.index_of(w.last()); assert(0 <= s[a] < 2 * en(n, r + 1)); idx_gv(n, h, r, s[a]); idx_gv(n, h, r, ri(n, r)); gp_range(h, r, s[a]); gp_range(h, r, ri(n, r)); }
}
/// the same facts for abstract lists: u deleted nodes, w those without deleted sibling, t2 deleted parents
pub open spec fn inc2(u: Seq<int>, w: Seq<int>, p: int) -> bool { (u.contains(2 * p) && u.contains(2 * p + 1)) || (exists|m: int| 0 <= m < w.len() && m % 2 == 1 && #[trigger] w[m] / 2 == p) }
pub open spec fn wabs(u: Seq<int>, w: Seq<int>, t2: Seq<int>, e1: int, ex_: bool) -> bool {
    (forall|x: int| #[trigger] w.contains(x) <==> u.contains(x) && !u.contains(sib(x))) && asc(w) && within(u, 2 * e1) && (ex_ ==> w.len() > 0)
    && (forall|p: int| #[trigger] t2.contains(p) <==> inc2(u, w, p) || (ex_ && p == w.last() / 2))
}
pub open spec fn wfacts(u: Seq<int>, w: Seq<int>, t2: Seq<int>, e1: int, ex_: bool) -> bool {
    (forall|a: int| 0 <= a < w.len() ==> u.contains(#[trigger] w[a]) && !u.contains(sib(w[a])) && 0 <= w[a] < 2 * e1 && 0 <= sib(w[a]) < 2 * e1)
    && (forall|a: int, b: int| 0 <= a < w.len() && 0 <= b < w.len() && a != b ==> #[trigger] w[a] != #[trigger] w[b] && w[a] / 2 != w[b] / 2)
    && (forall|a: int| 0 <= a < w.len() ==> (t2.contains(#[trigger] w[a] / 2) <==> a % 2 == 1 || (ex_ && a == w.len() - 1)))
}
pub proof fn w_facts(u: Seq<int>, w: Seq<int>, t2: Seq<int>, e1: int, ex_: bool) requires wabs(u, w, t2, e1, ex_) ensures wfacts(u, w, t2, e1, ex_)
{
    assert forall|a: int| 0 <= a < w.len() implies u.contains(#[trigger] w[a]) && !u.contains(sib(w[a])) && 0 <= w[a] < 2 * e1 && 0 <= sib(w[a]) < 2 * e1 by { assert(w.contains(w[a])); let i = u.index_of(w[a]); assert(0 <= u[i] < 2 * e1); }
    assert forall|a: int, b: int| 0 <= a < w.len() && 0 <= b < w.len() && a != b implies #[trigger] w[a] != #[trigger] w[b] && w[a] / 2 != w[b] / 2 by { if a < b { assert(w[a] < w[b]); } else { assert(w[b] < w[a]); } if w[a] / 2 == w[b] / 2 { assert(w[a] == sib(w[b])); } }
    assert forall|a: int| 0 <= a < w.len() implies (t2.contains(#[trigger] w[a] / 2) <==> a % 2 == 1 || (ex_ && a == w.len() - 1)) by {
        let p = w[a] / 2; assert(t2.contains(p) <==> inc2(u, w, p) || (ex_ && p == w.last() / 2));
        if a % 2 == 1 { assert(inc2(u, w, p)); }
        if inc2(u, w, p) { if u.contains(2 * p) && u.contains(2 * p + 1) { assert(sib(w[a]) == 2 * p || sib(w[a]) == 2 * p + 1); assert(false); } let e = choose|e: int| 0 <= e < w.len() && e % 2 == 1 && #[trigger] w[e] / 2 == p; if e != a { assert(w[e] / 2 != w[a] / 2); } }
        if ex_ && p == w.last() / 2 { if a != w.len() - 1 { assert(w[a] / 2 != w[w.len() - 1] / 2); } }
    }
}
pub open spec fn nomv(w: Seq<int>, j: int) -> bool { forall|m: int| 0 <= m && 2 * m + 1 < w.len() ==> #[trigger] w[2 * m] != j && sib(w[2 * m + 1]) != j }
/// a node below the root that is neither an even-numbered unpaired node nor the sibling of an odd-numbered one
pub proof fn still_abs(u: Seq<int>, w: Seq<int>, t2: Seq<int>, e1: int, ex_: bool, j: int)
    requires wabs(u, w, t2, e1, ex_), 0 <= j < 2 * e1, nomv(w, j), w.len() % 2 == 1 && !ex_ ==> w.last() != j
    ensures ex_ && j == sib(w.last()) ==> !u.contains(j), !(ex_ && j == sib(w.last())) ==> (u.contains(j) <==> t2.contains(j / 2))
{
    w_facts(u, w, t2, e1, ex_);
    let p = j / 2; let b = sib(j); assert(b / 2 == p); assert(sib(b) == j);
    assert(t2.contains(p) <==> inc2(u, w, p) || (ex_ && p == w.last() / 2));
    if ex_ && j == sib(w.last()) { assert(!u.contains(sib(w[w.len() - 1]))); }
    else if u.contains(j) && u.contains(b) { assert(inc2(u, w, p)); }
    else if u.contains(j) {
        assert(w.contains(j)); let a = w.index_of(j); assert(w[a] == j);
        if a % 2 == 0 { let m = a / 2; assert(2 * m == a); if a + 1 < w.len() { assert(w[2 * m] != j); } else { assert(ex_); } }
        assert(t2.contains(w[a] / 2));
    } else if u.contains(b) {
        assert(w.contains(b)); let a = w.index_of(b); assert(w[a] == b);
        if a % 2 == 1 { let m = a / 2; assert(2 * m + 1 == a); assert(w[2 * m] != j); assert(false); }
        if ex_ && a == w.len() - 1 { assert(j == sib(w.last())); } else { assert(!t2.contains(w[a] / 2)); }
    } else {
        if t2.contains(p) { if inc2(u, w, p) { if u.contains(2 * p) && u.contains(2 * p + 1) { assert(j == 2 * p || j == 2 * p + 1); } else { let e = choose|e: int| 0 <= e < w.len() && e % 2 == 1 && #[trigger] w[e] / 2 == p; assert(w[e] == j || w[e] == b); } } else { let g = w[w.len() - 1]; assert(g == j || g == b); } }
    }
}
/// one row's lists satisfy them
pub proof fn row_abs(n: int, n2: int, r: int, t: Seq<int>, t2: Seq<int>, rp: bool, dr: bool)
    requires 0 <= n2 <= n, 0 <= r, list_ok(n, n2, r, t), rp == (bit(n, r) && !t.contains(ri(n, r))),
        ({ let u = noroot(n, r, t); let x = nextp(u, dr && !rp); dr == (u.len() % 2 == 1) && asc(t2) && t2.len() == x.len() && (forall|p: int| #[trigger] t2.contains(p) <==> x.contains(p)) }),
    ensures wabs(noroot(n, r, t), wall(noroot(n, r, t)), t2, en(n, r + 1), dr && !rp), wall(noroot(n, r, t)).len() % 2 == 1 <==> dr, list_ok(n, n2, r + 1, t2), (dr != rp) <==> bit(n2, r)
{
    let u = noroot(n, r, t); let w = wall(u); let k = u.len() as int; let ex_ = dr && !rp; let x = nextp(u, ex_); let e1 = en(n, r + 1);
    en_half(n, r); en_half(n2, r); en_mono(n, n2, r); noroot_props(n, r, t); wos_props(u, k); cnp_count(u, k);
    assert(pend(u, k) == 0) by { if k > 0 && u.contains(sib(u[k - 1])) && u[k - 1] % 2 == 0 { let i = u.index_of(sib(u[k - 1])); if i < k - 1 { assert(u[i] < u[k - 1]); } } }
    nextp_props(u, e1, ex_);
    assert(list_ok(n, n2, r + 1, t2)) by { assert forall|a: int| 0 <= a < t2.len() implies 0 <= #[trigger] t2[a] < e1 by { assert(t2.contains(t2[a])); assert(x.contains(t2[a])); let i = x.index_of(t2[a]); assert(0 <= x[i] < e1); } }
    assert forall|y: int| u.contains(y) implies k > 0 && y <= u[k - 1] by { let i = u.index_of(y); if i < k - 1 { assert(u[i] < u[k - 1]); } }
    assert forall|p: int| inc(u, k, p) <==> #[trigger] inc2(u, w, p) by { }
    assert forall|p: int| #[trigger] t2.contains(p) <==> inc2(u, w, p) || (ex_ && p == w.last() / 2) by { assert(x.contains(p) <==> inc(u, k, p) || (ex_ && p == w.last() / 2)); assert(inc(u, k, p) <==> inc2(u, w, p)); }
}
pub open spec fn row_in(n: int, n2: int, h: int, r: int, t: Seq<int>, t2: Seq<int>, rp: bool, dr: bool, sw: Seq<Swap>, c: Swap) -> bool {
    let u = noroot(n, r, t); let x = nextp(u, dr && !rp);
    0 <= n2 <= n <= p2(h as nat) && h <= 62 && 0 <= r < h && list_ok(n, n2, r, t) && rp == (bit(n, r) && !t.contains(ri(n, r))) && dr == (u.len() % 2 == 1)
    && asc(t2) && t2.len() == x.len() && (forall|p: int| #[trigger] t2.contains(p) <==> x.contains(p)) && sw == mksws(h, r, wall(u), rp && dr, ri(n, r))
    && c.m_collapse == (dr != rp) && !c.m_is_range_swap && (c.m_collapse ==> sA(h, r, c) == if rp { ri(n, r) } else { sib(wall(u).last()) })
}
/// facts about the unpaired nodes w
pub open spec fn w_ok(n: int, h: int, r: int, u: Seq<int>, t2: Seq<int>, rp: bool, dr: bool, sw: Seq<Swap>) -> bool {
    let w = wall(u); let l = w.len() as int / 2; let e1 = en(n, r + 1); let root = rp && dr;
    (w.len() % 2 == 1 <==> dr) && (root ==> bit(n, r)) && sws_are(n, h, r, w, root, sw) && wfacts(u, w, t2, e1, dr && !rp)
}
pub open spec fn sws_are(n: int, h: int, r: int, w: Seq<int>, root: bool, sw: Seq<Swap>) -> bool {
    let l = w.len() as int / 2; sw.len() == l + (if root { 1int } else { 0 })
    && (forall|m: int| 0 <= m < sw.len() ==> !(#[trigger] sw[m]).m_collapse && !sw[m].m_is_range_swap && (m < l ==> sA(h, r, sw[m]) == sib(w[2 * m + 1]) && sB(h, r, sw[m]) == w[2 * m]) && (m >= l ==> root && m == l && sA(h, r, sw[m]) == ri(n, r) && sB(h, r, sw[m]) == w.last()))
}
pub proof fn mksws_all(n: int, h: int, r: int, s: Seq<int>, root: bool) requires 0 <= n <= p2(h as nat), h <= 62, 0 <= r < h, asc(s), within(s, 2 * en(n, r + 1)), root ==> wall(s).len() % 2 == 1 && bit(n, r) ensures sws_are(n, h, r, wall(s), root, mksws(h, r, wall(s), root, ri(n, r)))
{
    let w = wall(s); let l = w.len() as int / 2; let sw = mksws(h, r, w, root, ri(n, r));
    assert(sw.len() == l + if root { 1int } else { 0 });
    assert forall|m: int| 0 <= m < sw.len() implies !(#[trigger] sw[m]).m_collapse && !sw[m].m_is_range_swap && (m < l ==> sA(h, r, sw[m]) == sib(w[2 * m + 1]) && sB(h, r, sw[m]) == w[2 * m]) && (m >= l ==> root && m == l && sA(h, r, sw[m]) == ri(n, r) && sB(h, r, sw[m]) == w.last()) by { mksws_ix(n, h, r, s, root, m); }
}
pub proof fn row_w(n: int, n2: int, h: int, r: int, t: Seq<int>, t2: Seq<int>, rp: bool, dr: bool, sw: Seq<Swap>, c: Swap) requires row_in(n, n2, h, r, t, t2, rp, dr, sw, c)
    ensures w_ok(n, h, r, noroot(n, r, t), t2, rp, dr, sw), list_ok(n, n2, r + 1, t2), c.m_collapse <==> bit(n2, r), wabs(noroot(n, r, t), wall(noroot(n, r, t)), t2, en(n, r + 1), dr && !rp)
{
    let u = noroot(n, r, t); let w = wall(u); let root = rp && dr; let l = w.len() as int / 2; 
    row_abs(n, n2, r, t, t2, rp, dr); w_facts(u, w, t2, en(n, r + 1), dr && !rp); noroot_props(n, r, t); mksws_all(n, h, r, u, root); assert(sws_are(n, h, r, w, root, sw));
}
/// the swaps of a row of abstract lists
pub proof fn sws_dj(n: int, h: int, r: int, u: Seq<int>, w: Seq<int>, t2: Seq<int>, root: bool, ex_: bool, sw: Seq<Swap>)
    requires 0 <= n, 0 <= r, sws_are(n, h, r, w, root, sw), wfacts(u, w, t2, en(n, r + 1), ex_), root ==> bit(n, r) && w.len() % 2 == 1
    ensures disj(h, r, sw)
{
    let l = w.len() as int / 2; let e1 = en(n, r + 1); en_half(n, r);
    assert forall|a: int, b: int| 0 <= a < b < sw.len() implies sA(h, r, #[trigger] sw[a]) != sA(h, r, #[trigger] sw[b]) && sA(h, r, sw[a]) != sB(h, r, sw[b]) && sB(h, r, sw[a]) != sA(h, r, sw[b]) && sB(h, r, sw[a]) != sB(h, r, sw[b]) by {
        assert(a < l); let wa = w[2 * a]; let wb = w[2 * a + 1]; assert(wa < 2 * e1); assert(sib(wb) < 2 * e1); if b < l { let wc = w[2 * b]; let wd = w[2 * b + 1]; assert(wa / 2 != wc / 2 && wa / 2 != wd / 2 && wb / 2 != wc / 2 && wb / 2 != wd / 2); } else { let wc = w[w.len() - 1]; assert(wa / 2 != wc / 2 && wb / 2 != wc / 2); } }
}
pub proof fn sws_rng(n: int, h: int, r: int, u: Seq<int>, w: Seq<int>, t2: Seq<int>, root: bool, ex_: bool, sw: Seq<Swap>)
    requires 0 <= n, 0 <= r, sws_are(n, h, r, w, root, sw), wfacts(u, w, t2, en(n, r + 1), ex_), root ==> bit(n, r) && w.len() % 2 == 1
    ensures sws_in(n, h, r, sw), forall|m: int| 0 <= m < sw.len() ==> sB(h, r, #[trigger] sw[m]) / 2 < en(n, r + 1) && (sA(h, r, sw[m]) / 2 < en(n, r + 1) ==> t2.contains(sA(h, r, sw[m]) / 2))
{
    let l = w.len() as int / 2; let e1 = en(n, r + 1); en_half(n, r);
    assert(sws_in(n, h, r, sw)) by { assert forall|m: int| 0 <= m < sw.len() implies 0 <= sA(h, r, #[trigger] sw[m]) < en(n, r) && 0 <= sB(h, r, sw[m]) < en(n, r) && sA(h, r, sw[m]) != sB(h, r, sw[m]) && sA(h, r, sw[m]) != sib(sB(h, r, sw[m])) by {
        if m < l { let wa = w[2 * m]; let wb = w[2 * m + 1]; assert(wa / 2 != wb / 2); } else { let wc = w[w.len() - 1]; assert(wc < 2 * e1); } } }
    assert forall|m: int| 0 <= m < sw.len() implies sB(h, r, #[trigger] sw[m]) / 2 < e1 && (sA(h, r, sw[m]) / 2 < e1 ==> t2.contains(sA(h, r, sw[m]) / 2)) by {
        if m < l { let wa = w[2 * m]; let b = 2 * m + 1; assert(t2.contains(w[b] / 2)); assert(sib(w[b]) / 2 == w[b] / 2); } else { let wc = w[w.len() - 1]; assert(ri(n, r) / 2 == e1); } }
}
/// the collapse moves what no swap touched
pub proof fn sws_col(n: int, h: int, r: int, u: Seq<int>, w: Seq<int>, t2: Seq<int>, root: bool, ex_: bool, sw: Seq<Swap>, rp: bool, f: int)
    requires 0 <= n, 0 <= r, sws_are(n, h, r, w, root, sw), wfacts(u, w, t2, en(n, r + 1), ex_), !root, rp ==> bit(n, r), !rp ==> w.len() % 2 == 1 && ex_, f == if rp { ri(n, r) } else { sib(w.last()) }
    ensures 0 <= f < en(n, r), untouched(h, r, sw, sw.len() as int, f), sib(f) < en(n, r) ==> untouched(h, r, sw, sw.len() as int, sib(f)), f / 2 < en(n, r + 1) ==> t2.contains(f / 2)
{
    let l = w.len() as int / 2; let e1 = en(n, r + 1); en_half(n, r); let sl = sw.len() as int;
    if rp { 
        assert forall|m: int| 0 <= m < sl implies sA(h, r, #[trigger] sw[m]) != f && sB(h, r, sw[m]) != f by { let wa = w[2 * m]; let wb = w[2 * m + 1]; assert(wa < 2 * e1 && sib(wb) < 2 * e1); }
    } else {
        let g = w[w.len() - 1]; assert(f == sib(g)); assert(sib(f) == g);
        assert forall|m: int| 0 <= m < sl implies sA(h, r, #[trigger] sw[m]) != f && sB(h, r, sw[m]) != f && sA(h, r, sw[m]) != g && sB(h, r, sw[m]) != g by { let wa = w[2 * m]; let wb = w[2 * m + 1]; assert(wa / 2 != g / 2 && wb / 2 != g / 2); }
        assert(t2.contains(w[w.len() - 1] / 2)); assert(f / 2 == g / 2);
    }
}
pub proof fn row_sws(n: int, n2: int, h: int, r: int, t: Seq<int>, t2: Seq<int>, rp: bool, dr: bool, sw: Seq<Swap>, c: Swap) requires row_in(n, n2, h, r, t, t2, rp, dr, sw, c), w_ok(n, h, r, noroot(n, r, t), t2, rp, dr, sw)
    ensures disj(h, r, sw), sws_in(n, h, r, sw), forall|m: int| 0 <= m < sw.len() ==> sB(h, r, #[trigger] sw[m]) / 2 < en(n, r + 1) && (sA(h, r, sw[m]) / 2 < en(n, r + 1) ==> t2.contains(sA(h, r, sw[m]) / 2)),
        c.m_collapse ==> ({ let f = sA(h, r, c); 0 <= f < en(n, r) && untouched(h, r, sw, sw.len() as int, f) && (sib(f) < en(n, r) ==> untouched(h, r, sw, sw.len() as int, sib(f))) && (f / 2 < en(n, r + 1) ==> t2.contains(f / 2)) }),
{
    let u = noroot(n, r, t); let w = wall(u); let root = rp && dr; let ex_ = dr && !rp;
    sws_dj(n, h, r, u, w, t2, root, ex_, sw); sws_rng(n, h, r, u, w, t2, root, ex_, sw);
    if c.m_collapse { sws_col(n, h, r, u, w, t2, root, ex_, sw, rp, sA(h, r, c)); }
}
/// a node no swap of the row moves
pub proof fn row_still(n: int, n2: int, h: int, r: int, t: Seq<int>, t2: Seq<int>, rp: bool, dr: bool, sw: Seq<Swap>, c: Swap, j: int) requires row_in(n, n2, h, r, t, t2, rp, dr, sw, c), w_ok(n, h, r, noroot(n, r, t), t2, rp, dr, sw), wabs(noroot(n, r, t), wall(noroot(n, r, t)), t2, en(n, r + 1), dr && !rp), 0 <= j < en(n, r), untouched(h, r, sw, sw.len() as int, j)
    ensures t.contains(j) <==> dead2(n, h, r, t2, c, j)
{
    let u = noroot(n, r, t); let w = wall(u); let ex_ = dr && !rp; let root = rp && dr; let l = w.len() as int / 2; let e1 = en(n, r + 1); let f = sA(h, r, c);
    en_half(n, r); noroot_props(n, r, t);
    if j < 2 * e1 {
        assert(t.contains(j) <==> u.contains(j));
        assert forall|m: int| 0 <= m && 2 * m + 1 < w.len() implies #[trigger] w[2 * m] != j && sib(w[2 * m + 1]) != j by { assert(m < l && l <= sw.len()); assert(sA(h, r, sw[m]) != j); assert(sB(h, r, sw[m]) != j); }
        if w.len() % 2 == 1 && !ex_ { assert(dr && root); assert(l < sw.len()); assert(sA(h, r, sw[l]) != j && sB(h, r, sw[l]) != j); assert(sB(h, r, sw[l]) == w.last()); assert(w.last() != j); }
        assert(nomv(w, j));
        still_abs(u, w, t2, e1, ex_, j);
    } else { assert(j == ri(n, r) && bit(n, r)); assert(j / 2 == e1);
        if root { assert(sA(h, r, sw[l]) == j); }
        if c.m_collapse && !rp { let g = w[w.len() - 1]; assert(sib(g) < 2 * e1); } }
}
pub proof fn row_moved(n: int, n2: int, h: int, r: int, t: Seq<int>, t2: Seq<int>, rp: bool, dr: bool, sw: Seq<Swap>, c: Swap, m: int) requires row_in(n, n2, h, r, t, t2, rp, dr, sw, c), w_ok(n, h, r, noroot(n, r, t), t2, rp, dr, sw), 0 <= m < sw.len(), c.m_collapse ==> untouched(h, r, sw, sw.len() as int, sA(h, r, c))
    ensures t.contains(sA(h, r, sw[m])) <==> dead2(n, h, r, t2, c, sB(h, r, sw[m])), t.contains(sB(h, r, sw[m])) <==> dead2(n, h, r, t2, c, sA(h, r, sw[m]))
{
    let u = noroot(n, r, t); let w = wall(u); let root = rp && dr; let l = w.len() as int / 2; let e1 = en(n, r + 1); let f = sA(h, r, c); en_half(n, r); noroot_props(n, r, t);
    if m < l { let a = 2 * m; let b = 2 * m + 1; let wa = w[a]; let wb = w[b]; assert(wa < 2 * e1 && sib(wb) < 2 * e1); assert(!u.contains(sib(wb)) && u.contains(wa)); assert(sib(wb) / 2 == wb / 2); assert(t2.contains(w[b] / 2)); assert(!t2.contains(w[a] / 2)); }
    else { let i = w.len() - 1; let g = w[i]; assert(u.contains(g) && g < 2 * e1); assert(!t2.contains(w[i] / 2)); assert(ri(n, r) / 2 == e1); }
}
pub proof fn row_j(n: int, n2: int, h: int, r: int, t: Seq<int>, t2: Seq<int>, rp: bool, dr: bool, sw: Seq<Swap>, c: Swap, j: int) requires row_in(n, n2, h, r, t, t2, rp, dr, sw, c), w_ok(n, h, r, noroot(n, r, t), t2, rp, dr, sw), wabs(noroot(n, r, t), wall(noroot(n, r, t)), t2, en(n, r + 1), dr && !rp), 0 <= j < en(n, r), disj(h, r, sw), c.m_collapse ==> untouched(h, r, sw, sw.len() as int, sA(h, r, c))
    ensures t.contains(j) <==> dead2(n, h, r, t2, c, app(h, r, sw, sw.len() as int, j))
{
    hide(row_in); hide(w_ok); hide(wabs); hide(dead2); let sl = sw.len() as int;
    if untouched(h, r, sw, sl, j) { app_miss(h, r, sw, sl, j); row_still(n, n2, h, r, t, t2, rp, dr, sw, c, j); }
    else { let m = choose|m: int| 0 <= m < sl && !(sA(h, r, #[trigger] sw[m]) != j && sB(h, r, sw[m]) != j); app_hit(h, r, sw, sl, m); row_moved(n, n2, h, r, t, t2, rp, dr, sw, c, m); }
}
pub proof fn row_made(n: int, n2: int, h: int, r: int, t: Seq<int>, t2: Seq<int>, rp: bool, dr: bool, sw: Seq<Swap>, c: Swap) requires row_in(n, n2, h, r, t, t2, rp, dr, sw, c) ensures row_ok(n, n2, h, r, t, t2, sw, c)
{
    hide(w_ok); hide(wabs); hide(dead2); hide(disj); hide(sws_in); hide(mksws); hide(nextp); hide(asc);
    row_w(n, n2, h, r, t, t2, rp, dr, sw, c); row_sws(n, n2, h, r, t, t2, rp, dr, sw, c);
    assert forall|j: int| 0 <= j < en(n, r) implies (#[trigger] t.contains(j) <==> dead2(n, h, r, t2, c, app(h, r, sw, sw.len() as int, j))) by { row_j(n, n2, h, r, t, t2, rp, dr, sw, c, j); }
    row_nc(n, n2, h, r, t, t2, rp, dr, sw, c);
}
pub proof fn row_nc(n: int, n2: int, h: int, r: int, t: Seq<int>, t2: Seq<int>, rp: bool, dr: bool, sw: Seq<Swap>, c: Swap) requires row_in(n, n2, h, r, t, t2, rp, dr, sw, c), w_ok(n, h, r, noroot(n, r, t), t2, rp, dr, sw) ensures forall|m: int| 0 <= m < sw.len() ==> !(#[trigger] sw[m]).m_collapse && !sw[m].m_is_range_swap
{ assert(sws_are(n, h, r, wall(noroot(n, r, t)), rp && dr, sw)); }
