use replay::pmap_history;
use replay::*;

pmap_history!(history, ordinal_map::map::OrdinalArrayMap<K, V, S>, [const S: usize]);

fn main() {
    let mut run = Run::start("C09");
    let r = &mut run;
    macro_rules! go { ($($k:ty, $v:ty, $s:expr);* $(;)?) => { $( history::<$k, $v, $s>(r, concat!("OrdinalArrayMap<", stringify!($k), ", ", stringify!($v), ">")); )* } }
    go!(K<0>, u32, 0; (), u32, 1; K<1>, (), 1; K<1>, String, 1; bool, u32, 2; K<3>, Option<u8>, 3; Rev<4>, u32, 4; K<6>, String, 6; (K<3>, bool), (), 6;
        [K<2>; 3], Box<u64>, 8; Option<K<5>>, u32, 6; u8, u32, 256; K<65>, (), 65; K<127>, u32, 127; K<257>, u32, 257; Option<(u8, bool)>, u32, 513; K<1000>, String, 1000; K<5000>, u32, 5000; (u16, bool), u8, 131072; K<5>, Big, 5; K<3>, Wide, 3; K<3>, Unit, 3; Box<K<5>>, u32, 5; Box<K<70>>, &'static str, 70;);
    run.finish();
}
