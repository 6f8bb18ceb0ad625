PROP='C29'
FILE='tower/src/balance/p2c/layer.rs'
OLD="impl<D, Req> Clone for MakeBalanceLayer<D, Req> {"
NEW="impl<D, Req: Clone> Clone for MakeBalanceLayer<D, Req> {"
NEEDS="a balance layer for a request type which is not Clone, used where a layer has to be cloned"
BREAKS="the layer is cloneable only for cloneable requests: programs which clone it for others do not build any more"
DEMO=open(__file__.rsplit('/',1)[0]+'/../demo.sh').read()
MAIN='''use tower::balance::p2c::MakeBalanceLayer;

struct Once;

fn twice<L: Clone>(l: L) -> (L, L) {
    (l.clone(), l)
}

fn main() {
    let (a, b) = twice(MakeBalanceLayer::<(), Once>::new());
    drop((a, b));
}
'''
