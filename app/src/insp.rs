//! The inspector: changes recorded since its start, and the fragment they describe.
use crate::{n::N, nl};
use std::cell::RefCell;
use vertigo::inspect::{log_start, log_take, DomDebugFragment};
use vertigo::{DomId, DriverDomCommand};

thread_local! {
    static LOG: RefCell<Vec<DriverDomCommand>> = const { RefCell::new(Vec::new()) };
}

/// ["insp"] starts a new record, ["inspoff"] ends it
pub fn exec(op: &N) -> bool {
    match op.at(0).s() {
        "insp" => {
            log_take();
            LOG.with(|l| l.borrow_mut().clear());
            log_start();
        }
        "inspoff" => {
            log_take();
        }
        _ => return false,
    }
    true
}

fn id(x: &DomId) -> N {
    (x.to_u64() as i64).into()
}

/// [root | null, [[id, parent, name, [[attribute, value]], [[event, callback]], [child], text | null]], [[selector, rules]], text]
pub fn fragment(direct: bool) -> N {
    let f = if direct {
        DomDebugFragment::from_log()
    } else {
        let all = LOG.with(|l| {
            l.borrow_mut().extend(log_take());
            l.borrow().clone()
        });
        log_start();
        DomDebugFragment::from_cmds(all)
    };
    let mut nodes: Vec<_> = f.map.iter().collect();
    nodes.sort_by_key(|x| *x.0);
    let nodes: Vec<N> = nodes
        .into_iter()
        .map(|(k, n)| {
            let attrs: Vec<N> = n.attrs.iter().map(|(k, v)| nl![k.as_str(), v.as_str()]).collect();
            let calls: Vec<N> = n.callbacks.iter().map(|(k, v)| nl![k.as_str(), v.as_u64() as i64]).collect();
            let kids: Vec<N> = n.children.iter().map(id).collect();
            let text = n.text.as_ref().map(|t| N::from(t.as_str())).unwrap_or(N::Null);
            nl![id(k), id(&n.parent_id), n.name.as_str(), attrs, calls, kids, text, id(&n.id)]
        })
        .collect();
    let css: Vec<N> = f.css.iter().map(|(k, v)| nl![k.as_str(), v.as_str()]).collect();
    let root = f.root_node.as_ref().map(id).unwrap_or(N::Null);
    nl![root, nodes, css, f.to_pseudo_html()]
}
