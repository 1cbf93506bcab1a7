use replay::pmap_history;
use replay::*;
#[allow(unused_imports)]
use std::num::*;

pmap_history!(history, ordinal_map::map::OrdinalMap<K, V>, []);

fn main() {
    let mut run = Run::start("C08");
    let r = &mut run;
    macro_rules! go { ($($k:ty, $v:ty);* $(;)?) => { $( history::<$k, $v>(r, concat!("OrdinalMap<", stringify!($k), ", ", stringify!($v), ">")); )* } }
    go!(K<0>, u32; (), u32; K<1>, (); K<1>, String; bool, u32; K<3>, Option<u8>; Rev<4>, u32; K<6>, String; (K<3>, bool), (); [K<2>; 3], Box<u64>;
        Option<K<5>>, u32; u8, u32; K<65>, (); K<127>, u32; K<257>, u32; Option<(u8, bool)>, u32; K<1000>, String; NonZeroI16, u32; K<70000>, u32; (u16, bool), (); K<5>, Big; K<3>, Wide; K<3>, Unit; Box<K<5>>, u32; Box<K<70>>, &'static str;);
    run.finish();
}
