//! Membership for any core grammar, well typed or not: a chart of end points
//! grown to a fix point. Slow, simple, and independent of the typing rules.
use crate::eval::{Core, Node};

pub fn member(core: &Core, text: &[char]) -> bool {
    let len = text.len();
    let words = len / 64 + 1;
    let n = core.nodes.len();
    // ends[node][start] = bit set of ends
    let mut ends: Vec<u64> = vec![0; n * (len + 1) * words];
    let at = |node: usize, i: usize| (node * (len + 1) + i) * words;
    let mut changed = true;
    while changed {
        changed = false;
        for node in 0..n {
            for i in (0..=len).rev() {
                let mut new = vec![0_u64; words];
                match &core.nodes[node] {
                    Node::Eps => new[i / 64] |= 1 << (i % 64),
                    Node::Lit(s) => {
                        if text[i..].starts_with(s) {
                            let e = i + s.len();
                            new[e / 64] |= 1 << (e % 64);
                        }
                    }
                    Node::Fix(b) => new.copy_from_slice(&ends[at(*b, i)..at(*b, i) + words]),
                    Node::Rec(f) => new.copy_from_slice(&ends[at(*f, i)..at(*f, i) + words]),
                    Node::Alt(v) => {
                        for (x, _) in v {
                            for w in 0..words {
                                new[w] |= ends[at(*x, i) + w];
                            }
                        }
                    }
                    Node::Cat(v) => {
                        let mut cur = vec![0_u64; words];
                        cur[i / 64] |= 1 << (i % 64);
                        for x in v {
                            let mut nxt = vec![0_u64; words];
                            for j in 0..=len {
                                if cur[j / 64] >> (j % 64) & 1 == 1 {
                                    for w in 0..words {
                                        nxt[w] |= ends[at(*x, j) + w];
                                    }
                                }
                            }
                            cur = nxt;
                        }
                        new = cur;
                    }
                    Node::Opaque(_) => {}
                }
                let a = at(node, i);
                for w in 0..words {
                    if ends[a + w] | new[w] != ends[a + w] {
                        ends[a + w] |= new[w];
                        changed = true;
                    }
                }
            }
        }
    }
    ends[at(core.root, 0) + len / 64] >> (len % 64) & 1 == 1
}
